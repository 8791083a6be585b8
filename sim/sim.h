// Deterministic simulator for thot: shared declarations.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool permille(unsigned p) { return below(1000) < p; }
  int pick(const std::vector<int>& v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------- decisions
// Every nondeterministic choice of a run is a numbered question of a stream;
// answer 0 is the default ("no fault", "keep running").  Only non-default
// answers are recorded; replay answers a question from the record or with 0.
enum Stream {
  S_ACCESS,   // preemption at the n-th instrumented memory access
  S_SYNC,     // preemption at the n-th synchronisation/system call
  S_BLOCK,    // which fiber runs next when the current one cannot
  S_COND,     // which waiter a signal wakes / spurious wakeups
  S_NET,      // network faults
  S_DISK,     // disk faults
  S_THREAD,   // thread creation faults
  S_TIME,     // clock jumps
  S_MEM,      // failing allocations
  S_DL,       // dynamic loading faults
  N_STREAMS
};
extern const char* stream_name[N_STREAMS];
struct Decision { int stream; u64 idx; int val; };

// fault kinds counted when they really fire
enum Fault {
  F_NET_SHORT_RECV, F_NET_SHORT_SEND, F_NET_EINTR, F_NET_RESET, F_NET_DELAY, F_NET_BACKPRESSURE, F_ACCEPT_ERR,
  F_CLIENT_VANISH, F_CLIENT_GARBAGE, F_CLIENT_STALL,
  F_THREAD_EAGAIN, F_SPURIOUS_WAKE, F_CLOCK_JUMP, F_ALLOC_FAIL, F_DLOPEN_FAIL,
  F_DISK_SHORT_READ, F_DISK_SHORT_WRITE, F_DISK_EINTR, F_DISK_EIO_READ, F_DISK_EIO_WRITE, F_DISK_ENOSPC, F_DISK_OPEN_FAIL,
  F_DISK_SYNC_FAIL, F_DISK_META_FAIL, F_CRASH_PROCESS, F_CRASH_POWER, F_TORN_WRITE, F_LOST_WRITE, F_STDOUT_FAIL, F_RESTART, F_PREEMPT_ACCESS, F_PREEMPT_SYNC,
  N_FAULTS
};
extern const char* fault_name[N_FAULTS];

// per-run configuration: everything here is derived from the seed and is part
// of the replay file
struct Cfg {
  // scheduling
  int sync_permille = 0;       // preemption probability at sync points
  u64 access_mean = 0;         // mean accesses between preemptions, 0 = never
  int pct = 0;                 // PCT: strict random priorities with n change points
  int spurious_permille = 0;
  // network
  int net_short = 0, net_sshort = 0, net_eintr = 0, net_reset = 0, net_delay = 0, accept_err = 0;
  int net_cap = 65536;         // per-direction socket buffer
  // threads, clock, memory, dl
  int thread_fail = 0, clock_jump = 0, dl_fail = 0;
  // disk
  int disk_short = 0, disk_eintr = 0, disk_eio_r = 0, disk_eio_w = 0, disk_open = 0, disk_sync = 0, disk_meta = 0;
  int out_fail = 0;            // writing to standard output fails from here on
  int open_w = 0;              // opening a file for writing fails
  long long disk_quota = -1;   // bytes that may still be written
  long long crash_at = -1;     // crash the process at this disk operation
  int crash_power = 0;         // 0: process crash, 1: power loss
  int races = 0;               // report data races and uses of freed memory
  int log_yield = 0;           // yield inside writes to stderr
  u64 max_access = 600000000ull;
  int over_ok = 0;             // a run that uses up max_access ends without a verdict (reference runs)
};

struct FieldDef { const char* name; long long (*get)(const Cfg&); void (*set)(Cfg&, long long); };
extern const FieldDef cfg_fields[];

// ------------------------------------------------------------- workload
// A workload is a list of operations; each has an actor, a code and arguments.
struct Op {
  int actor = 0, code = 0;
  long long a = 0, b = 0;
  int c = 0;
  std::string s, t;
};
struct Plan {
  std::string world;   // world (scenario family) name
  u64 seed = 0;
  std::map<std::string, long long> par;  // world parameters
  Cfg cfg;
  std::vector<Op> ops;
  std::vector<Decision> dec;
  bool replay = false;       // take decisions from dec instead of the generator
};
std::string plan_text(const Plan&);
bool plan_parse(const std::string&, Plan&);

// ------------------------------------------------------------- outcome
enum { MAX_DEC = 60000, TEXT_MAX = 1 << 16, BLOB_MAX = 24 << 20, N_PROBES = 128, N_STATES = 4096 };
struct Shared {
  u64 n_access, n_sync, n_switch, clock_us, clock_skew;  // carried across phases
  int status;                 // 0 running/ended without verdict, 1 ok, 2 violation, 3 harness error, 4 out of budget
  char cls[96];               // violation class
  char text[TEXT_MAX];
  u64 event_hash, sched_hash;
  u64 faults[N_FAULTS], asked[N_STREAMS];
  u64 accesses, syncs, switches, sim_us, ops_done, fibers, races_checked;
  u64 probes[N_PROBES];
  u64 blob_len;
  u32 n_states;
  u32 n_dec;
  Decision dec[MAX_DEC];      // what follows is not cleared between runs
  u64 states[N_STATES];       // fingerprints of states reached (a world decides)
  char blob[BLOB_MAX];
};
extern Shared* shm;
int probe_id(const char* name);          // registers a name once (before forking)
void probe(int id);
extern const char* probe_names[N_PROBES];
void state_seen(u64 fingerprint);
void add_hash(u64 v);
void add_hash(const std::string&);
extern "C" void sim_eventlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_verbose;

// A violation ends the run.  cls is the stable violation class.
[[noreturn]] void violation(const std::string& cls, const std::string& text);
[[noreturn]] void harness_error(const std::string& text);
[[noreturn]] void run_ok();

// ------------------------------------------------------------- kernel
struct Fiber;
extern const Plan* plan;
extern Cfg cfg;
extern bool in_sim;
void kernel_init();                      // once per process, before anything else
void begin_run(const Plan& p);           // in the forked child
int answer(Stream s, int n, int permille); // 0 or 1..n
u64 now_us();
Fiber* spawn(const std::string& name, int proc, std::function<void()> fn);
bool run_driver(std::function<void()> fn);   // runs fn as the first fiber; never returns
bool join_all(const std::vector<Fiber*>& v); // blocks the calling fiber; false on hang
bool fiber_done(Fiber*);
void yield_point(const char* what);      // a scheduling point
void sleep_us(u64 us);
void block_until(std::function<bool()> ready, const char* why, u64 deadline_us = 0);
int cur_proc();
int new_proc(const std::string& name);
struct ProcState { std::string name; bool exited = false; int code = 0; bool sigpipe_ignored = false; std::string out, err; bool killed = false; std::string in; size_t in_pos = 0; bool out_broken = false; int cout_state = 0; u64 received = 0; };
ProcState& proc(int id);
void proc_exit(int id, int code);        // ends every fiber of the process
bool proc_ended(int id);
std::string describe_blocked();
int live_fibers(int procid);                 // without the threads of installed libraries
bool library_threads(int procid);
int open_sockets(int procid);
int open_files(int procid);
void set_hang_handler(std::function<void(const std::string&)>);

// code of the harness itself: not a scheduling point, not checked for races
extern int g_off;
struct Quiet { int s; Quiet() : s(g_off) { ++g_off; } ~Quiet() { g_off = s; } };
// allocations of the simulator itself live apart from those of the code under test
extern int g_karena;
struct Karena { Karena() { ++g_karena; } ~Karena() { --g_karena; } };

// called from the posix layer
void cur_wait(void* on, const char* why);    // block the current fiber on an address
int wake(void* on, int n);                   // wake up to n waiters (all if n<0)
int waiters(void* on);
void hb_release(void* obj);
void hb_acquire(void* obj);
void count_fault(Fault f);
void fresh_range(const void* p, size_t n);

// ------------------------------------------------------------- simulated OS
void net_reset_all();
int net_connect(int port);                   // harness client sockets: -1 on failure
long net_send(int fd, const void* p, size_t n);
long net_recv(int fd, void* p, size_t n);
void net_close(int fd, bool rst = false);
bool net_listening(int port);
void net_kill_proc(int procid);

void vfs_load_dir(const std::string& real, const std::string& virt);
void vfs_put(const std::string& path, const std::string& data);
bool vfs_get(const std::string& path, std::string& data);
bool vfs_exists(const std::string& path);
void vfs_mkdirs(const std::string& path);
void vfs_remove_tree(const std::string& path);
std::vector<std::string> vfs_list(const std::string& prefix);
std::string vfs_image();                     // serialised content as a restarted process would see it
std::string vfs_crash_image(int power, Rng& rng);
void vfs_restore(const std::string& image);
u64 vfs_ops();
void vfs_mark_durable();
void vfs_close_proc(int procid);
void vfs_exit_flush();                       // what exit() does to open streams
long long vfs_written();
void streams_init();
void streams_take();

// A phase runs fn in a forked copy of the current process (its own memory, the
// shared counters) and ends when fn calls phase_end; a violation inside ends the run.
enum { PHASE_DONE = 10, PHASE_CRASHED = 11, PHASE_NO = 12, PHASE_ABORTED = 13 };
extern bool g_abort_ends;    // an abort of the code under test ends the phase instead of being a violation
int run_phase(std::function<void()> fn);
[[noreturn]] void phase_end(int code);
extern bool g_muted;         // reference executions: no faults, no recorded decisions

extern "C" int sim_run_main(const char* name, int argc, char** argv);

// ------------------------------------------------------------- worlds
struct World {
  const char* name;
  // derive a plan from a seed (parent, kernel allocations)
  void (*generate)(u64 seed, int variant, Plan&);
  // run it (child)
  void (*run)(const Plan&);
  // load what every run needs into the simulated disk (parent, once)
  void (*load)();
};
void register_world(const World&);
const World* find_world(const std::string&);

// fork a process that runs fn in a fresh copy of the pristine parent image; used for
// phases (restart after a crash) and for the reference executions of a checker
}  // namespace sim
