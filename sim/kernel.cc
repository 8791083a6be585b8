// The simulator kernel: deterministic allocation, fibers, scheduler, decision
// streams, happens-before race detection.  Everything runs on one OS thread.
#include <iostream>
#include "kernel.h"
#include <assert.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>
#include <unwind.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals(); }

namespace sim {

const char* stream_name[N_STREAMS] = {"access", "sync", "block", "cond", "net", "disk", "thread", "time", "mem", "dl"};
const char* fault_name[N_FAULTS] = {
    "net_short_recv", "net_short_send", "net_eintr", "net_reset", "net_delay", "net_backpressure", "accept_error",
    "client_vanishes", "client_garbage", "client_stalls", "thread_create_eagain", "spurious_wakeup", "clock_jump",
    "alloc_fail", "dlopen_fail", "disk_short_read", "disk_short_write", "disk_eintr", "disk_eio_read", "disk_eio_write",
    "disk_full", "disk_open_fail", "disk_sync_fail", "disk_meta_fail", "process_crash", "power_loss", "torn_write",
    "lost_unsynced_write", "stdout_write_fail", "restart", "preemption_at_memory_access", "preemption_at_sync_or_syscall"};

#define F(x) {#x, [](const Cfg& c) { return (long long)c.x; }, [](Cfg& c, long long v) { c.x = v; }}
const FieldDef cfg_fields[] = {F(sync_permille), F(access_mean), F(pct), F(spurious_permille), F(net_short), F(net_sshort), F(net_eintr),
    F(net_reset), F(net_delay), F(accept_err), F(net_cap), F(thread_fail), F(clock_jump), F(dl_fail), F(disk_short),
    F(disk_eintr), F(disk_eio_r), F(disk_eio_w), F(disk_open), F(disk_sync), F(disk_meta), F(out_fail), F(open_w), F(disk_quota), F(crash_at),
    F(crash_power), F(races), F(log_yield), F(max_access), {nullptr, nullptr, nullptr}};
#undef F

Shared* shm;
const char* probe_names[N_PROBES];
const Plan* plan;
Cfg cfg;
bool in_sim;
bool g_verbose;
int g_off = 1;
int g_karena = 0;

// =============================================================== allocation
static const u64 APP = 0x1000000000ull, APP_SZ = 4ull << 30;
static const u64 KER = 0x3000000000ull, KER_SZ = 4ull << 30;
static const u64 STK = 0x7000000000ull, STK_ONE = 1ull << 20, STK_SZ = STK_ONE * MAXF;
static const u64 SH_APP = 0x100000000000ull;           // shadow of APP, 4x
static const u64 SH_STK = 0x120000000000ull;
static const u64 SH_GLB = 0x130000000000ull;
static const u64 GLB_SZ = 1ull << 28;

struct Hdr { u64 size; u32 cls; u32 magic; };           // 16 bytes before the block
enum { M_LIVE = 0x51AE11FE, M_FREE = 0xDEADF8EE, NCLS = 64 + 4 * 40 };
struct Arena {
  u64 base, size, top;
  Hdr* freelist[NCLS];
  std::pair<void*, u64>* quarantine; u64 qh, qt, qbytes;
};
static Arena app_arena, ker_arena;
static bool arenas_up;
enum { QMAX = 1 << 20 };
static const u64 QBYTES = 24ull << 20;

static void* map_fixed(u64 at, u64 n) {
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)at) { static const char m[] = "sim: cannot map arena\n"; syscall(SYS_write, 2, m, sizeof m - 1); _exit(98); }
  return p;
}
static void arena_init() {
  if (arenas_up) return;
  arenas_up = true;
  map_fixed(APP, APP_SZ); map_fixed(KER, KER_SZ);
  app_arena.base = app_arena.top = APP; app_arena.size = APP_SZ;
  ker_arena.base = ker_arena.top = KER; ker_arena.size = KER_SZ;
}
static inline unsigned cls_of(u64 n, u64& rounded) {
  if (n <= 1024) { unsigned c = n ? (n + 15) / 16 - 1 : 0; rounded = (c + 1) * 16; return c; }
  int lg = 63 - __builtin_clzll(n - 1);                 // 2^lg <= n-1
  u64 step = 1ull << (lg - 2);
  unsigned q = (n - 1 - (1ull << lg)) / step;           // 0..3
  rounded = (1ull << lg) + (q + 1) * step;
  return 64 + (lg - 10) * 4 + q;
}
static void shadow_alloc(void* p, u64 n, bool reused);
static void shadow_free(void* p, u64 n);
static u64 g_alloc_count; 
long long g_alloc_fail_at = -1;

static void* arena_alloc(u64 n, u64 align) {
  if (!arenas_up) arena_init();
  bool ker = g_karena > 0;
  Arena& a = ker ? ker_arena : app_arena;
  if (n > (1ull << 31)) { errno = ENOMEM; return nullptr; }
  if (!ker && g_off == 0) ++g_alloc_count;
  u64 r; unsigned c = cls_of(n, r);
  if (align <= 16) {
    if (Hdr* h = a.freelist[c]) {
      a.freelist[c] = *(Hdr**)(h + 1);
      h->size = n; h->magic = M_LIVE;
      if (!ker) shadow_alloc(h + 1, r, true);
      return h + 1;
    }
    if (a.top + r + 16 > a.base + a.size) { errno = ENOMEM; return nullptr; }
    Hdr* h = (Hdr*)a.top; a.top += r + 16;
    h->size = n; h->cls = c; h->magic = M_LIVE;
    return h + 1;
  }
  u64 p = (a.top + 16 + align - 1) & ~(align - 1);
  a.top = (p + r + 15) & ~15ull;
  Hdr* h = (Hdr*)p - 1; h->size = n; h->cls = NCLS - 1; h->magic = M_LIVE;   // aligned blocks are never reused
  return (void*)p;
}
static inline Arena* arena_of(void* p) {
  u64 a = (u64)p;
  if (a - APP < APP_SZ) return &app_arena;
  if (a - KER < KER_SZ) return &ker_arena;
  return nullptr;
}
static void bad_free(void* p, const char* what);
static void arena_free(void* p) {
  if (!p) return;
  Arena* a = arena_of(p);
  if (!a) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != M_LIVE) { bad_free(p, h->magic == M_FREE ? "double free" : "invalid free or heap overflow"); return; }
  h->magic = M_FREE;
  if (h->cls == NCLS - 1) return;
  u64 r; cls_of(h->size, r);
  if (a == &ker_arena) { *(Hdr**)p = a->freelist[h->cls]; a->freelist[h->cls] = h; return; }
  if (in_sim) {
    shadow_free(p, r);
    memset(p, 0xDD, h->size < 512 ? h->size : 512);
    if (!a->quarantine) a->quarantine = (std::pair<void*, u64>*)mmap(0, QMAX * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    a->quarantine[a->qt++ % QMAX] = {p, r};
    a->qbytes += r;
    while (a->qbytes > QBYTES || a->qt - a->qh >= QMAX) {
      auto q = a->quarantine[a->qh++ % QMAX];
      a->qbytes -= q.second;
      Hdr* f = (Hdr*)q.first - 1;
      *(Hdr**)q.first = a->freelist[f->cls]; a->freelist[f->cls] = f;
    }
    return;
  }
  *(Hdr**)p = a->freelist[h->cls]; a->freelist[h->cls] = h;
}
}  // namespace sim
using namespace sim;
extern "C" {
void* malloc(size_t n) { return arena_alloc(n, 16); }
void free(void* p) { arena_free(p); }
void* calloc(size_t a, size_t b) { if (b && a > (1ull << 40) / b) { errno = ENOMEM; return nullptr; } void* p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return arena_alloc(n, 16);
  if (!n) { arena_free(p); return nullptr; }
  Arena* a = arena_of(p);
  if (!a) return nullptr;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != M_LIVE) { bad_free(p, "realloc of a freed block"); }
  int k = g_karena; g_karena = a == &ker_arena;
  void* q = arena_alloc(n, 16);
  g_karena = k;
  if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n);
  arena_free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return arena_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al); }
int posix_memalign(void** p, size_t al, size_t n) { *p = arena_alloc(n, al); return *p ? 0 : ENOMEM; }
void* valloc(size_t n) { return arena_alloc(n, 4096); }
void* pvalloc(size_t n) { return arena_alloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}
namespace sim {

// =============================================================== fibers
Fiber fibers[MAXF];
int n_fibers;
Fiber host;                   // the context that called run_driver
Fiber* cur = &host;
static u64 n_access, countdown = ~0ull, n_sync, n_switch, clock_us, clock_skew;
static std::vector<ProcState>* procs;
static std::function<void(const std::string&)>* hang_handler;
static bool hang_flag;
static int driver_id = -1;

extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");

static void switch_to(Fiber* f) {
  Fiber* old = cur;
  if (old == f) return;
  ++n_switch;
  if (!g_muted) shm->sched_hash = (shm->sched_hash ^ ((u64)f->id << 32 ^ n_sync)) * 0x100000001B3ull;
  old->off = g_off; old->kar = g_karena; old->err = errno;
  memcpy(old->eh, __cxxabiv1::__cxa_get_globals(), 16);
  cur = f;
  g_off = f->off; g_karena = f->kar; errno = f->err;
  memcpy(__cxxabiv1::__cxa_get_globals(), f->eh, 16);
  // every process has its own standard output stream
  if (cfg.out_fail && old->proc != f->proc) {
    int& o = (*procs)[old->proc].cout_state; int& n = (*procs)[f->proc].cout_state;
    o = (int)std::cout.rdstate();
    if (n != o) std::cout.clear((std::ios_base::iostate)n);
  }
  sim_swap(&old->sp, f->sp);
}

static void fiber_end();
extern "C" void sim_fiber_entry() {
  Fiber* f = cur;
  (*f->fn)();
  fiber_end();
  abort();
}

// ------------------------------------------------------------ decisions
static u64 draw(int s, u64 idx, int k = 0) {
  Rng r(plan->seed * 1000003ull + (u64)s * 7919 + idx * 0x9E3779B97F4A7C15ull + (u64)k * 0xD1B54A32D192ED03ull);
  return r.next();
}
bool g_muted;
static std::map<std::pair<int, u64>, int>* script;
static std::vector<std::pair<u64, int>>* access_script;
static size_t access_pos;

static void record(int stream, u64 idx, int val) {
  if (shm->n_dec < MAX_DEC) shm->dec[shm->n_dec++] = Decision{stream, idx, val};
}
struct Off { Off() { ++g_off; } ~Off() { --g_off; } };
int answer(Stream s, int n, int permille) {
  if (n <= 0 || permille <= 0 || g_muted) return 0;
  Karena k; Off o;
  u64 idx = shm->asked[s]++;
  int v = 0;
  if (plan->replay) {
    auto it = script->find({s, idx});
    if (it != script->end()) v = it->second > n ? n : it->second;
  } else if (permille > 0 && draw(s, idx) % 1000 < (u64)permille) {
    v = 1 + draw(s, idx, 1) % n;
    record(s, idx, v);
  }
  return v;
}
// like answer but uniformly random over 0..n
static int answer_uniform(Stream s, int n) {
  if (n <= 0 || g_muted) return 0;
  Karena k; Off o;
  u64 idx = shm->asked[s]++;
  int v = 0;
  if (plan->replay) {
    auto it = script->find({s, idx});
    if (it != script->end()) v = it->second > n ? n : it->second;
  } else {
    v = draw(s, idx) % (n + 1);
    if (v) record(s, idx, v);
  }
  return v;
}
static void arm_countdown() {
  if (g_muted) countdown = ~0ull;
  else if (plan->replay) {
    while (access_pos < access_script->size() && (*access_script)[access_pos].first <= n_access) ++access_pos;
    if (access_pos < access_script->size()) {
      u64 at = (*access_script)[access_pos].first;
      countdown = at > n_access ? at - n_access : 1;
    } else countdown = ~0ull;
  } else if (cfg.access_mean) {
    countdown = 1 + draw(S_ACCESS, shm->asked[S_ACCESS]++) % (2 * cfg.access_mean);
  } else countdown = ~0ull;
  u64 left = n_access < cfg.max_access ? cfg.max_access - n_access : 1;
  if (countdown > left) countdown = left;
}

u64 now_us() { return clock_us + clock_skew; }
static std::vector<u64>* pct_change;   // sync indexes at which the running fiber loses its priority
static size_t pct_pos;

// runnable fibers other than the current one, in cyclic order after it
static int others(Fiber** out) {
  int n = 0, base = cur == &host ? -1 : cur->id;
  for (int i = 1; i <= n_fibers; ++i) {
    int id = (base + i + n_fibers) % n_fibers;
    if (&fibers[id] != cur && fibers[id].state == RUNNABLE) out[n++] = &fibers[id];
  }
  return n;
}
static bool fire_timers(bool jump) {
  u64 best = ~0ull;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i].state == BLOCKED && fibers[i].deadline) best = std::min(best, fibers[i].deadline);
  if (best == ~0ull) return false;
  if (best > clock_us) { if (!jump) return false; clock_us = best; }
  bool any = false;
  for (int i = 0; i < n_fibers; ++i) {
    Fiber& f = fibers[i];
    if (f.state == BLOCKED && f.deadline && f.deadline <= clock_us) {
      f.state = RUNNABLE; f.deadline = 0; f.timed_out = true; f.wait_on = nullptr; any = true;
    }
  }
  return any;
}
static void poll_conditions() {
  for (int i = 0; i < n_fibers; ++i) {
    Fiber& f = fibers[i];
    if (f.state == BLOCKED && f.ready && (*f.ready)()) { f.state = RUNNABLE; f.deadline = 0; f.wait_on = nullptr; }
  }
}
std::string describe_blocked() {
  Karena k;
  std::string s;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i].state == BLOCKED)
      s += "  " + fibers[i].name + " (process " + (*procs)[fibers[i].proc].name + ") waits in " + fibers[i].why + "\n";
  return s;
}
// the current fiber cannot continue: run somebody else
static void run_other() {
  for (;;) {
    poll_conditions();
    fire_timers(false);
    Fiber* c[MAXF];
    int n = others(c);
    if (cur->state == RUNNABLE && cur != &host) {   // became runnable again meanwhile
      c[n++] = cur;
    }
    if (n) {
      int v = 0;
      if (n > 1) {
        if (cfg.pct && !g_muted) {
          u64 idx = shm->asked[S_BLOCK]++;
          if (plan->replay) {
            auto it = script->find({S_BLOCK, idx});
            if (it != script->end()) v = std::min(it->second, n - 1);
          } else {
            for (int i = 1; i < n; ++i) if (c[i]->prio > c[v]->prio) v = i;
            if (v) { Karena k; record(S_BLOCK, idx, v); }
          }
        } else if (g_muted) {} else if (cfg.sync_permille || cfg.access_mean || plan->replay) v = answer_uniform(S_BLOCK, n - 1);
      }
      switch_to(c[v]);
      return;
    }
    if (fire_timers(true)) continue;
    // nothing can run any more
    if (driver_id >= 0 && fibers[driver_id].state == BLOCKED) {
      hang_flag = true;
      fibers[driver_id].state = RUNNABLE; fibers[driver_id].wait_on = nullptr; fibers[driver_id].deadline = 0;
      continue;
    }
    harness_error("simulation stuck without a driver");
  }
}
static inline void tick() { ++clock_us; }

void yield_point(const char* what) {
  if (!in_sim || cur == &host) return;
  Off off;
  ++n_sync; tick();
  if (n_sync > 5000000) violation("no-progress", "the run used up its budget of system and synchronisation calls without finishing\n" + describe_blocked());
  if (g_verbose) sim_eventlog("%s: %s", cur->name.c_str(), what);
  shm->event_hash = (shm->event_hash ^ ((u64)cur->id << 40) ^ (u64)(unsigned char)what[0] << 48 ^ n_sync ^ n_access << 8) * 0x100000001B3ull;
  if (cfg.clock_jump) {
    if (int v = answer(S_TIME, 4, cfg.clock_jump)) {
      count_fault(F_CLOCK_JUMP);
      static const long long j[] = {3600000000ll, -3600000000ll, 1000000, -1000000};
      clock_skew += j[v - 1];
    }
  }
  poll_conditions();
  fire_timers(false);
  Fiber* c[MAXF];
  int n = others(c);
  if (!n) return;
  int v = 0;
  if (g_muted) return;
  if (cfg.pct) {
    u64 idx = shm->asked[S_SYNC]++;
    if (plan->replay) {
      auto it = script->find({S_SYNC, idx});
      if (it != script->end()) v = std::min(it->second, n);
    } else {
      if (pct_pos < pct_change->size() && n_sync >= (*pct_change)[pct_pos]) { cur->prio = 1000 - (long)pct_pos; ++pct_pos; }
      int best = cur->prio;
      for (int i = 0; i < n; ++i) if (c[i]->prio > best) { best = c[i]->prio; v = i + 1; }
      if (v) { Karena k; record(S_SYNC, idx, v); }
    }
  } else v = answer(S_SYNC, n, cfg.sync_permille);
  if (v) { count_fault(F_PREEMPT_SYNC); switch_to(c[v - 1]); }
}

static void finish(int status);
static int p_too_long = probe_id("reference-run-too-long");
static void access_preempt() {
  Off o;
  if (n_access >= cfg.max_access && cfg.over_ok) { probe(p_too_long); finish(1); abort(); }
  if (n_access >= cfg.max_access) violation("no-progress", "the run used up its budget of memory accesses without finishing\n" + describe_blocked() + "  running: " + cur->name + "\n" + stack_text());
  int v = 0;
  Fiber* c[MAXF];
  int n = others(c);
  if (plan->replay) {
    if (access_pos < access_script->size() && (*access_script)[access_pos].first <= n_access) v = (*access_script)[access_pos++].second;
  } else {
    if (n && cfg.access_mean && !g_muted) v = 1 + draw(S_ACCESS, shm->asked[S_ACCESS]++) % n;
    if (v) { Karena k; record(S_ACCESS, n_access, v); }
  }
  arm_countdown();
  if (v > n) v = n;
  if (v) { count_fault(F_PREEMPT_ACCESS); switch_to(c[v - 1]); }
}

void cur_wait(void* on, const char* why) {
  Off o;
  cur->state = BLOCKED; cur->wait_on = on; cur->why = why; cur->timed_out = false;
  run_other();
}
int wake(void* on, int n) {
  int w = 0;
  for (int i = 0; i < n_fibers && n != 0; ++i)
    if (fibers[i].state == BLOCKED && fibers[i].wait_on == on) {
      fibers[i].state = RUNNABLE; fibers[i].wait_on = nullptr; fibers[i].deadline = 0; ++w;
      if (n > 0) --n;
    }
  return w;
}
int waiters(void* on) {
  int w = 0;
  for (int i = 0; i < n_fibers; ++i) if (fibers[i].state == BLOCKED && fibers[i].wait_on == on) ++w;
  return w;
}
void block_until(std::function<bool()> ready, const char* why, u64 deadline_us) {
  Karena k; Off o;
  while (!ready()) {
    if (deadline_us && clock_us >= deadline_us) { cur->timed_out = true; return; }
    cur->state = BLOCKED; cur->why = why; cur->wait_on = nullptr; cur->timed_out = false; cur->deadline = deadline_us;
    cur->ready = new std::function<bool()>(ready);
    run_other();
    delete cur->ready; cur->ready = nullptr;
    if (cur->timed_out) return;
    if (hang_flag && cur->id == driver_id) return;
  }
  cur->timed_out = false;
}
void sleep_us(u64 us) {
  Off o; Karena k;
  cur->deadline = clock_us + (us ? us : 1);
  cur->state = BLOCKED; cur->why = "sleep"; cur->wait_on = nullptr;
  run_other();
}
u64 clock_raw() { return clock_us; }

static void fiber_end() {
  ++g_off;
  hb_release(cur);
  cur->state = DONE;
  wake(cur, -1);
  run_other();
}
[[noreturn]] void fiber_exit() { fiber_end(); abort(); }

Fiber* spawn(const std::string& name, int p, std::function<void()> fn) {
  Karena k;
  if (n_fibers >= MAXF) harness_error("too many fibers");
  Fiber& f = fibers[n_fibers];
  f = Fiber();
  f.id = n_fibers;
  f.name = name; f.proc = p; f.state = RUNNABLE;
  f.fn = new std::function<void()>(fn);
  f.off = f.kar = p == 0;
  f.prio = 10000 + (int)(draw(S_SYNC, 1u << 30, f.id) % 10000);
  u64 base = STK + f.id * STK_ONE;
  mprotect((void*)base, 4096, PROT_NONE);
  u64* sp = (u64*)(base + STK_ONE - 64);
  *--sp = 0;                       // end of stack for the unwinder
  *--sp = (u64)sim_fiber_entry;    // return address of sim_swap
  for (int i = 0; i < 6; ++i) *--sp = 0;
  --sp; ((u32*)sp)[0] = 0x1F80; ((u32*)sp)[1] = 0x037F;
  f.sp = sp;
  // happens-before edge from the creator
  if (cur != &host) memcpy(f.vc, cur->vc, sizeof f.vc);
  f.vc[f.id] = 1;
  if (cur != &host) ++cur->vc[cur->id];
  ++n_fibers;
  ++shm->fibers;
  return &f;
}
bool fiber_done(Fiber* f) { return f->state == DONE; }
bool join_all(const std::vector<Fiber*>& v) {
  hang_flag = false;
  block_until([&] { for (auto f : v) if (f->state != DONE) return false; return true; }, "join");
  for (auto f : v) hb_acquire(f);
  bool h = hang_flag; hang_flag = false;
  for (auto f : v) if (f->state != DONE) return false;
  (void)h;
  return true;
}
void set_hang_handler(std::function<void(const std::string&)>) {}
int cur_proc() { return cur == &host ? 0 : cur->proc; }
int new_proc(const std::string& name) { Karena k; procs->push_back(ProcState()); procs->back().name = name; return procs->size() - 1; }
ProcState& proc(int id) { return (*procs)[id]; }
bool proc_ended(int id) { return (*procs)[id].exited || (*procs)[id].killed; }
bool library_threads(int p) { for (int i = 0; i < n_fibers; ++i) if (fibers[i].proc == p && fibers[i].library) return true; return false; }
int live_fibers(int p) { int n = 0; for (int i = 0; i < n_fibers; ++i) if (fibers[i].proc == p && fibers[i].state != DONE && !fibers[i].library) ++n; return n; }
void proc_exit(int id, int code) {
  ++g_off;
  {
    Karena k;
    ProcState& p = (*procs)[id];
    p.exited = true; p.code = code;
    net_kill_proc(id);
    vfs_close_proc(id);
    for (int i = 0; i < n_fibers; ++i)
      if (fibers[i].proc == id && fibers[i].state != DONE) { fibers[i].state = DONE; wake(&fibers[i], -1); }
  }
  if (cur != &host && cur->proc == id) { run_other(); abort(); }
  --g_off;
}
bool run_driver(std::function<void()> fn) {
  Fiber* f = spawn("driver", 0, [fn] { fn(); });
  driver_id = f->id;
  f->off = 1;
  cur = &host; host.id = MAXF - 1; host.state = BLOCKED;
  arm_countdown();
  in_sim = true;
  switch_to(f);
  abort();
}

// =============================================================== races
struct Cell { u64 s[4]; };
enum { FREED = 127 };
static int g_race;           // races enabled
static inline u64 slot(u64 fid, u64 w, u64 at, u64 mask, u64 clk, u64 pc) {
  return (fid + 1) << 56 | w << 55 | at << 54 | mask << 46 | (clk & 0xFFFFF) << 26 | (pc & 0x3FFFFFF);
}
static inline Cell* cell_of(u64 a) {
  if (a - APP < APP_SZ) return (Cell*)(SH_APP + ((a - APP) >> 3) * sizeof(Cell));
  if (a - STK < STK_SZ) return (Cell*)(SH_STK + ((a - STK) >> 3) * sizeof(Cell));
  if (a < GLB_SZ) return (Cell*)(SH_GLB + (a >> 3) * sizeof(Cell));
  return nullptr;
}
static std::string where(u64 pc) {
  if (!pc) return "?";
  char b[64]; snprintf(b, sizeof b, "0x%lx", (unsigned long)pc);
  Dl_info di;
  if (dladdr((void*)pc, &di) && di.dli_sname) return std::string(di.dli_sname) + "@" + b;
  return b;
}
std::string stack_text() {
  std::string s;
  for (int i = cur->depth - 1, n = 0; i >= 0 && n < 14; --i, ++n)
    if (i < SHSTACK) s += "    " + where((u64)cur->stack[i]) + "\n";
  return s;
}
static void report_race(u64 addr, u64 old, bool w, u64 pc, const char* what) {
  Karena k; ++g_off;
  u64 opc = old & 0x3FFFFFF; int ofid = (int)(old >> 56) - 1;
  std::string t = std::string(what) + " on " ;
  char b[128]; snprintf(b, sizeof b, "address 0x%lx\n", (unsigned long)addr);
  t += b;
  t += "  this access: " + cur->name + (w ? " writes at " : " reads at ") + where(pc) + "\n" + stack_text();
  if (ofid != FREED - 1 && ofid >= 0 && ofid < n_fibers)
    t += "  other access: " + fibers[ofid].name + ((old >> 55 & 1) ? " wrote at " : " read at ") + where(opc) + "\n";
  else t += "  freed at " + where(opc) + "\n";
  violation(what, t);
}
static void check_granule(u64 a, u64 mask, bool w, bool at, u64 pc) {
  Cell* c = cell_of(a);
  if (!c) return;
  u64 me = cur->id;
  u64 nv = slot(me, w, at, mask, cur->vc[me], pc);
  u64 f0 = c->s[0] >> 56;
  if (f0 == FREED) report_race(a, c->s[0], w, pc, "use-after-free");
  bool placed = false;
  for (int i = 0; i < 4; ++i) {
    u64 s = c->s[i];
    if (!s) { if (!placed) c->s[i] = nv; return; }
    u64 fid = (s >> 56) - 1;
    u64 sm = s >> 46 & 0xFF;
    bool sw = s >> 55 & 1;
    if (fid == me) {
      if (sm == mask && sw <= w) { if (!placed) { c->s[i] = nv; placed = true; } }
      continue;
    }
    u64 clk = s >> 26 & 0xFFFFF;
    if (clk <= cur->vc[fid]) { if (!placed && (sm & ~mask) == 0 && (w || !sw)) { c->s[i] = nv; placed = true; } continue; }
    if ((sm & mask) && (w || sw) && !(at && (s >> 54 & 1))) report_race(a, s, w, pc, "data-race");
  }
  if (!placed) c->s[n_access & 3] = nv;
}
static inline void check(u64 a, u64 n, bool w, bool at, u64 pc) {
  while (n) {
    u64 off = a & 7, k = 8 - off < n ? 8 - off : n;
    check_granule(a & ~7ull, ((1u << k) - 1) << off & 0xFF, w, at, pc);
    a += k; n -= k;
  }
}
static inline void touch(void* p, u64 n, bool w, u64 pc, bool at = false) {
  if (g_off) return;
  ++n_access;
  if (--countdown == 0) access_preempt();
  if (g_race) check((u64)p, n, w, at, pc);
}
static void touch_range(void* p, u64 n, bool w, u64 pc) {
  if (g_off || !n) return;
  ++n_access;
  if (--countdown == 0) access_preempt();
  if (g_race) check((u64)p, n, w, false, pc);
}
void fresh_range(const void* p, size_t n) {
  if (!g_race) return;
  for (u64 a = (u64)p & ~7ull; a < (u64)p + n; a += 8) if (Cell* c = cell_of(a)) memset(c, 0, sizeof *c);
}
static void shadow_alloc(void* p, u64 n, bool reused) {
  if (!g_race || !reused || !in_sim) return;
  if (Cell* c = cell_of((u64)p)) memset(c, 0, (n + 7) / 8 * sizeof(Cell));
}
static void shadow_free(void* p, u64 n) {
  if (!g_race) return;
  Cell* c = cell_of((u64)p);
  if (!c) return;
  u64 pc = cur->depth > 0 && cur->depth <= SHSTACK ? (u64)cur->stack[cur->depth - 1] : 0;
  u64 mark = slot(FREED - 1, 1, 0, 0xFF, 0, pc);
  u64 m = (n + 7) / 8;
  bool chk = g_off == 0;
  for (u64 i = 0; i < m; ++i) {
    if (chk) for (int j = 0; j < 4 && c[i].s[j]; ++j) {
      u64 s = c[i].s[j], fid = (s >> 56) - 1;
      if (fid != (u64)cur->id && fid != FREED - 1 && (s >> 26 & 0xFFFFF) > cur->vc[fid])
        report_race((u64)p + i * 8, s, true, pc, "data-race");
    }
    c[i].s[0] = mark; c[i].s[1] = c[i].s[2] = c[i].s[3] = 0;
  }
}
static void bad_free(void* p, const char* what) {
  if (!in_sim || g_karena) { static const char m[] = "sim: bad free\n"; syscall(SYS_write, 2, m, sizeof m - 1); abort(); }
  Karena k; ++g_off;
  violation("memory-error", std::string(what) + "\n" + stack_text());
}

static std::unordered_map<void*, u32*>* sync_vc;
static u32* vc_of(void* o) {
  Karena k;
  auto it = sync_vc->find(o);
  if (it != sync_vc->end()) return it->second;
  u32* v = (u32*)calloc(MAXF, 4);
  (*sync_vc)[o] = v;
  return v;
}
void hb_release(void* o) {
  if (!g_race || cur == &host) return;
  Off off;
  u32* v = vc_of(o);
  for (int i = 0; i < n_fibers; ++i) if (cur->vc[i] > v[i]) v[i] = cur->vc[i];
  ++cur->vc[cur->id];
}
void hb_acquire(void* o) {
  if (!g_race || cur == &host) return;
  Off off;
  u32* v = vc_of(o);
  for (int i = 0; i < n_fibers; ++i) if (v[i] > cur->vc[i]) cur->vc[i] = v[i];
}

// =============================================================== run control
void count_fault(Fault f) { ++shm->faults[f]; }
static int n_probe_names;
int probe_id(const char* name) {
  for (int i = 0; i < n_probe_names; ++i) if (!strcmp(probe_names[i], name)) return i;
  if (n_probe_names >= N_PROBES) return N_PROBES - 1;
  probe_names[n_probe_names] = name;
  return n_probe_names++;
}
void probe(int id) { ++shm->probes[id]; }
void state_seen(u64 fp) { if (shm->n_states < N_STATES) shm->states[shm->n_states++] = fp; }
void add_hash(u64 v) { shm->event_hash = (shm->event_hash ^ v) * 0x100000001B3ull; }
void add_hash(const std::string& s) { for (unsigned char c : s) add_hash(c); add_hash(s.size()); }

extern "C" void sim_eventlog(const char* fmt, ...) {
  if (!g_verbose) return;
  char b[2048];
  va_list ap; va_start(ap, fmt);
  int n = snprintf(b, sizeof b, "[%8llu] ", (unsigned long long)n_sync);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  syscall(SYS_write, 3, b, n);
}
static void carry_out() { shm->n_access = n_access; shm->n_sync = n_sync; shm->n_switch = n_switch; shm->clock_us = clock_us; shm->clock_skew = clock_skew; }
static void carry_in() { n_access = shm->n_access; n_sync = shm->n_sync; n_switch = shm->n_switch; clock_us = shm->clock_us; clock_skew = shm->clock_skew; }
static void finish(int status) {
  shm->accesses = n_access; shm->syncs = n_sync; shm->switches = n_switch; shm->sim_us = clock_us - 1000000000000ull;
  shm->status = status;
  _exit(0);
}
void violation(const std::string& cls, const std::string& text) {
  snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
  snprintf(shm->text, sizeof shm->text, "%s", text.c_str());
  sim_eventlog("VIOLATION %s: %s", cls.c_str(), text.c_str());
  finish(2);
  abort();
}
void harness_error(const std::string& text) {
  snprintf(shm->cls, sizeof shm->cls, "harness");
  snprintf(shm->text, sizeof shm->text, "%s", text.c_str());
  finish(3);
  abort();
}
void run_ok() { finish(1); abort(); }
void phase_end(int code) { carry_out(); _exit(code); abort(); }
int run_phase(std::function<void()> fn) {
  Karena k;
  carry_out();
  pid_t ppid = getpid();
  pid_t pid = fork();
  if (pid < 0) harness_error("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != ppid) _exit(95);
    struct itimerval it = {{0, 0}, {120, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
    run_driver([fn] { fn(); phase_end(PHASE_DONE); });
  }
  int st = 0;
  while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
  if (shm->status) _exit(0);
  if (!WIFEXITED(st)) { snprintf(shm->text, sizeof shm->text, "phase ended by signal %d", WTERMSIG(st)); shm->status = WTERMSIG(st) == SIGALRM ? 4 : 3; _exit(0); }
  carry_in();
  return WEXITSTATUS(st);
}

bool g_abort_ends;
static void on_signal(int sig, siginfo_t* si, void*) {
  g_off = 1; g_karena = 1;
  if (sig == SIGABRT && g_abort_ends) phase_end(PHASE_ABORTED);
  if (shm) {
    snprintf(shm->cls, sizeof shm->cls, "crash");
    size_t n = snprintf(shm->text, sizeof shm->text, "signal %d (%s) in %s\n", sig, strsignal(sig), cur->name.c_str());
    for (int i = cur->depth - 1, k = 0; i >= 0 && k < 14; --i, ++k)
      if (i < SHSTACK) {
        Dl_info di;
        const char* nm = dladdr(cur->stack[i], &di) && di.dli_sname ? di.dli_sname : "?";
        n += snprintf(shm->text + n, sizeof shm->text - n, "    %s@%p\n", nm, cur->stack[i]);
      }
    finish(2);
  }
  _exit(97);
}
void kernel_init() {
  arena_init();
  Karena k;
  map_fixed(STK, STK_SZ);
  map_fixed(SH_APP, APP_SZ / 8 * sizeof(Cell));
  map_fixed(SH_STK, STK_SZ / 8 * sizeof(Cell));
  map_fixed(SH_GLB, GLB_SZ / 8 * sizeof(Cell));
  procs = new std::vector<ProcState>;
  sync_vc = new std::unordered_map<void*, u32*>;
  script = new std::map<std::pair<int, u64>, int>;
  access_script = new std::vector<std::pair<u64, int>>;
  { std::map<int, int> m; for (int i = 0; i < 9; ++i) m[i * 5 % 9] = i; for (auto i = m.begin(); i != m.end(); ++i) {} for (auto i = m.rbegin(); i != m.rend(); ++i) {} m.erase(4); }   // resolve the tree helpers now
  pct_change = new std::vector<u64>;
}
void begin_run(const Plan& p) {
  Karena k;
  plan = &p;
  cfg = p.cfg;
  g_race = cfg.races;
  for (auto& d : p.dec) {
    if (d.stream == S_ACCESS) access_script->push_back({d.idx, d.val});
    else (*script)[{d.stream, d.idx}] = d.val;
  }
  std::sort(access_script->begin(), access_script->end());
  for (int i = 0; i < cfg.pct; ++i) pct_change->push_back(draw(S_SYNC, 1u << 31, i) % 3000);
  std::sort(pct_change->begin(), pct_change->end());
  shm->event_hash = 0xcbf29ce484222325ull;
  shm->sched_hash = 0xcbf29ce484222325ull;
  procs->clear();
  procs->push_back(ProcState());
  (*procs)[0].name = "harness";
  clock_us = 1000000000000ull; clock_skew = 0; n_access = n_sync = n_switch = 0;
  stack_t ss;
  ss.ss_sp = mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16; ss.ss_flags = 0;
  syscall(SYS_sigaltstack, &ss, nullptr);
  real_sigaction_all(on_signal);
}
}  // namespace sim

// =============================================================== __tsan_* entry points
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { int d = cur->depth++; if (d < SHSTACK) cur->stack[d] = pc; }
void __tsan_func_exit() { --cur->depth; }
#define RW(n) \
  void __tsan_read##n(void* p) { touch(p, n, false, PC); } \
  void __tsan_write##n(void* p) { touch(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { touch(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { touch(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { touch(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { touch(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { touch(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { touch(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { touch(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { touch(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { touch(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { touch_range(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { touch_range(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { touch_range((void*)s, n, false, PC); touch_range(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { touch_range((void*)s, n, false, PC); touch_range(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { touch_range(d, n, true, PC); return memset(d, c, n); }

static inline void at(void* p, int n, bool w, u64 pc) {
  if (g_off) return;
  touch(p, n, w, pc, true);
  hb_acquire(p); if (w) hb_release(p);
}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define ATOM(b, n) \
  a##b __tsan_atomic##b##_load(const volatile a##b* p, int) { at((void*)p, n, false, PC); return *p; } \
  void __tsan_atomic##b##_store(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); *p = v; } \
  a##b __tsan_atomic##b##_exchange(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = v; return o; } \
  a##b __tsan_atomic##b##_fetch_add(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = o + v; return o; } \
  a##b __tsan_atomic##b##_fetch_sub(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = o - v; return o; } \
  a##b __tsan_atomic##b##_fetch_and(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = o & v; return o; } \
  a##b __tsan_atomic##b##_fetch_or(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = o | v; return o; } \
  a##b __tsan_atomic##b##_fetch_xor(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = o ^ v; return o; } \
  a##b __tsan_atomic##b##_fetch_nand(volatile a##b* p, a##b v, int) { at((void*)p, n, true, PC); a##b o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile a##b* p, a##b* e, a##b v, int, int) { at((void*)p, n, true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile a##b* p, a##b* e, a##b v, int, int) { at((void*)p, n, true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  a##b __tsan_atomic##b##_compare_exchange_val(volatile a##b* p, a##b e, a##b v, int, int) { at((void*)p, n, true, PC); a##b o = *p; if (o == e) *p = v; return o; }
ATOM(8, 1) ATOM(16, 2) ATOM(32, 4) ATOM(64, 8)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics: the other threads wait
int __cxa_guard_acquire(u64* g) {
  unsigned char* b = (unsigned char*)g;
  if (in_sim && cur != &host) {
    int s = g_off; 
    if (!s) yield_point("static-init");
    while (b[1] && !b[0]) { ++g_off; cur_wait(g, "initialisation of a static"); g_off = s; }
    if (b[0]) { hb_acquire(g); return 0; }
    b[1] = 1;
    return 1;
  }
  return b[0] ? 0 : 1;
}
void __cxa_guard_release(u64* g) {
  unsigned char* b = (unsigned char*)g;
  b[0] = 1; b[1] = 0;
  if (in_sim && cur != &host) { hb_release(g); wake(g, -1); }
}
void __cxa_guard_abort(u64* g) {
  unsigned char* b = (unsigned char*)g;
  b[1] = 0;
  if (in_sim && cur != &host) wake(g, -1);
}
}
// the red-black tree helpers live uninstrumented in libstdc++: report what they touch
extern "C" {
void* __real_dlsym(void*, const char*);
typedef std::_Rb_tree_node_base N;
N* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(N* x) {
  static N* (*r)(N*); if (!r) r = (N * (*)(N*))__real_dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
  if (!g_off) { touch(&x->_M_right, 8, false, PC); touch(&x->_M_parent, 8, false, PC); }
  return r(x);
}
const N* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const N* x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base((N*)x); }
N* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(N* x) {
  static N* (*r)(N*); if (!r) r = (N * (*)(N*))__real_dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
  if (!g_off) { touch(&x->_M_left, 8, false, PC); touch(&x->_M_parent, 8, false, PC); }
  return r(x);
}
const N* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const N* x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base((N*)x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, N* x, N* p, N& h) {
  static void (*r)(bool, N*, N*, N&); if (!r) r = (void (*)(bool, N*, N*, N&))__real_dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  if (!g_off) { touch(l ? &p->_M_left : &p->_M_right, 8, true, PC); touch(&h._M_parent, 8, false, PC); }
  r(l, x, p, h);
}
N* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(N* z, N& h) {
  static N* (*r)(N*, N&); if (!r) r = (N * (*)(N*, N&))__real_dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  if (!g_off) { touch(&z->_M_parent, 8, true, PC); touch(&h._M_parent, 8, true, PC); }
  return r(z, h);
}
}
