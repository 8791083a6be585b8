// The simulated operating system: threads, clock, network and dynamic loading.
#include "kernel.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <memory>
#include "vfd.h"

using namespace sim;
namespace sim {
static inline bool live() { return in_sim && cur != &host; }
static inline void point(const char* w) { if (g_off == 0) yield_point(w); }

// --------------------------------------------------------------- threads
struct Mx { Fiber* owner = nullptr; int count = 0; };
struct Rw { Fiber* writer = nullptr; int readers = 0; };
static std::map<void*, Mx>& mxs() { static std::map<void*, Mx>* m = new std::map<void*, Mx>; return *m; }
static std::map<void*, Rw>& rws() { static std::map<void*, Rw>* m = new std::map<void*, Rw>; return *m; }
static std::map<void*, int>& sems() { static std::map<void*, int>* m = new std::map<void*, int>; return *m; }

static bool dead_owner(Mx& m) { return false && m.owner; }
static int mutex_lock(void* p, bool recursive, bool try_only) {
  Enter e;
  for (;;) {
    Mx& m = mxs()[p];
    if (!m.owner || dead_owner(m)) { m.owner = cur; m.count = 1; hb_acquire(p); return 0; }
    if (m.owner == cur && recursive) { ++m.count; return 0; }
    if (try_only) return EBUSY;
    cur_wait(p, "pthread_mutex_lock");
  }
}
static void mutex_unlock(void* p) {
  Enter e;
  Mx& m = mxs()[p];
  if (m.owner == cur && m.count > 1) { --m.count; return; }
  hb_release(p);
  m.owner = nullptr; m.count = 0;
  wake(p, -1);
}
static void pick_wake(void* c) {
  int w = waiters(c);
  if (!w) return;
  int k = w > 1 ? answer(S_COND, w - 1, 500) : 0;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i].state == BLOCKED && fibers[i].wait_on == c && k-- == 0) {
      fibers[i].state = RUNNABLE; fibers[i].wait_on = nullptr; fibers[i].deadline = 0;
      return;
    }
}
static int cond_wait(void* c, void* m, u64 deadline) {
  point("cond_wait");
  Enter e;
  if (cfg.spurious_permille && answer(S_COND, 1, cfg.spurious_permille)) {
    count_fault(F_SPURIOUS_WAKE);
    mutex_unlock(m);
    g_off = 0; yield_point("spurious wakeup"); g_off = 1;
    mutex_lock(m, false, false);
    return 0;
  }
  mutex_unlock(m);
  cur->deadline = deadline;
  cur_wait(c, "pthread_cond_wait");
  bool to = cur->timed_out;
  mutex_lock(m, false, false);
  return to ? ETIMEDOUT : 0;
}
static u64 abs_deadline(const struct timespec* ts) {
  u64 t = (u64)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
  u64 n = now_us();
  return clock_raw() + (t > n ? t - n : 1);
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}  // namespace sim

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  int t = 0; if (a) { pthread_mutexattr_gettype(a, &t); m->__data.__kind = t; }
  if (live()) { Enter e; mxs()[m] = Mx(); }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (live()) { Enter e; mxs().erase(m); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!live()) return 0; point("lock"); return mutex_lock(m, is_recursive(m), false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!live()) return 0; point("trylock"); return mutex_lock(m, is_recursive(m), true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!live()) return 0; mutex_unlock(m); point("unlock"); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!live()) return 0; return cond_wait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!live()) return 0; return cond_wait(c, m, abs_deadline(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (!live()) return 0; return cond_wait(c, m, abs_deadline(ts)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!live()) return 0; point("cond_signal"); Enter e; pick_wake(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!live()) return 0; point("cond_broadcast"); Enter e; wake(c, -1); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) { memset(r, 0, sizeof *r); if (live()) { Enter e; rws()[r] = Rw(); } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* r) { if (live()) { Enter e; rws().erase(r); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* r) {
  if (!live()) return 0;
  point("rdlock"); Enter e;
  while (rws()[r].writer) cur_wait(r, "pthread_rwlock_rdlock");
  ++rws()[r].readers; hb_acquire(r); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { if (!live()) return 0; point("tryrdlock"); Enter e; if (rws()[r].writer) return EBUSY; ++rws()[r].readers; hb_acquire(r); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) {
  if (!live()) return 0;
  point("wrlock"); Enter e;
  while (rws()[r].writer || rws()[r].readers) cur_wait(r, "pthread_rwlock_wrlock");
  rws()[r].writer = cur; hb_acquire(r); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) { if (!live()) return 0; point("trywrlock"); Enter e; if (rws()[r].writer || rws()[r].readers) return EBUSY; rws()[r].writer = cur; hb_acquire(r); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* r) {
  if (!live()) return 0;
  { Enter e; hb_release(r); Rw& w = rws()[r]; if (w.writer == cur) w.writer = nullptr; else if (w.readers) --w.readers; wake(r, -1); }
  point("rwunlock"); return 0;
}
int pthread_spin_init(pthread_spinlock_t* s, int) { *s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* s) { if (!live()) return 0; point("spin"); return mutex_lock((void*)s, false, false); }
int pthread_spin_unlock(pthread_spinlock_t* s) { if (!live()) return 0; mutex_unlock((void*)s); point("spinunlock"); return 0; }
int sem_init(sem_t* s, int, unsigned v) { Enter e; sems()[s] = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_wait(sem_t* s) { if (!live()) return 0; point("sem_wait"); Enter e; while (sems()[s] <= 0) cur_wait(s, "sem_wait"); --sems()[s]; hb_acquire(s); return 0; }
int sem_trywait(sem_t* s) { if (!live()) return 0; Enter e; if (sems()[s] <= 0) { errno = EAGAIN; return -1; } --sems()[s]; hb_acquire(s); return 0; }
int sem_post(sem_t* s) { if (!live()) return 0; { Enter e; hb_release(s); ++sems()[s]; wake(s, -1); } point("sem_post"); return 0; }

pthread_t pthread_self() { return (pthread_t)(0x7f0000001000ull + (u64)(cur == &host ? 999 : cur->id) * 0x1000); }
static Fiber* of_thread(pthread_t t) { u64 i = (t - 0x7f0000001000ull) / 0x1000; return i < (u64)n_fibers ? &fibers[i] : nullptr; }
extern char __executable_start, etext;
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  void* caller = __builtin_return_address(0);
  if (!live()) { static const char m[] = "sim: thread created outside a run\n"; syscall(SYS_write, 2, m, sizeof m - 1); abort(); }
  point("pthread_create");
  {
    Enter e;
    if (answer(S_THREAD, 1, cfg.thread_fail)) { count_fault(F_THREAD_EAGAIN); sim_eventlog("pthread_create fails with EAGAIN"); return EAGAIN; }
    static int serial = 0;
    Fiber* f = spawn("thread" + std::to_string(++serial), cur->proc, [fn, arg] { cur->retval = fn(arg); });
    f->library = !((char*)caller >= &__executable_start && (char*)caller < &etext);
    *t = (pthread_t)(0x7f0000001000ull + (u64)f->id * 0x1000);
  }
  point("thread created");
  return 0;
}
void pthread_exit(void* v) { if (!live()) abort(); cur->retval = v; fiber_exit(); }
int pthread_join(pthread_t t, void** v) {
  if (!live()) return 0;
  point("join"); Enter e;
  Fiber* f = of_thread(t);
  if (!f) return ESRCH;
  while (f->state != DONE) cur_wait(f, "pthread_join");
  hb_acquire(f);
  if (v) *v = f->retval;
  return 0;
}
int pthread_detach(pthread_t t) { if (Fiber* f = of_thread(t)) f->detached = true; return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (*o == 2) { if (live()) { Enter e; hb_acquire(o); } return 0; }
  if (live()) {
    point("once");
    { Enter e; while (*o == 1) cur_wait(o, "pthread_once"); }
    if (*o == 2) { hb_acquire(o); return 0; }
  }
  *o = 1; fn(); *o = 2;
  if (live()) { Enter e; hb_release(o); wake(o, -1); }
  return 0;
}
static unsigned n_keys = 1;
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = n_keys++; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { Enter e; return cur->keys ? (*cur->keys)[k] : nullptr; }
int pthread_setspecific(pthread_key_t k, const void* v) { Enter e; if (!cur->keys) cur->keys = new std::map<unsigned, void*>; (*cur->keys)[k] = (void*)v; return 0; }
int pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int sched_yield() { if (live()) { point("sched_yield"); Enter e; Fiber* c = cur; (void)c; sleep_us(1); } return 0; }

// ----------------------------------------------------------------- time
static u64 real_us() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return (u64)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
int gettimeofday(struct timeval* tv, void*) { u64 n = live() ? now_us() : real_us(); point("gettimeofday"); tv->tv_sec = n / 1000000; tv->tv_usec = n % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!live()) return syscall(SYS_clock_gettime, c, ts);
  u64 n = c == CLOCK_REALTIME ? now_us() : clock_raw();
  ts->tv_sec = n / 1000000; ts->tv_nsec = n % 1000000 * 1000; return 0;
}
time_t time(time_t* t) { u64 n = live() ? now_us() : real_us(); time_t v = n / 1000000; if (t) *t = v; return v; }
clock_t clock() { return live() ? (clock_t)(clock_raw() - 1000000000000ull) : 0; }
clock_t times(struct tms* b) { clock_t v = live() ? (clock_raw() - 1000000000000ull) / 10000 : 0; if (b) { memset(b, 0, sizeof *b); b->tms_utime = v; } return v; }
int getrusage(__rusage_who_t w, struct rusage* r) {
  if (!live()) return syscall(SYS_getrusage, w, r);
  memset(r, 0, sizeof *r);
  u64 n = clock_raw() - 1000000000000ull;
  r->ru_utime.tv_sec = n / 1000000; r->ru_utime.tv_usec = n % 1000000;
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) { if (live()) { Enter e; sleep_us((u64)t->tv_sec * 1000000 + t->tv_nsec / 1000); } return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
int usleep(useconds_t u) { if (live()) { Enter e; sleep_us(u); } return 0; }
unsigned sleep(unsigned s) { if (live()) { Enter e; sleep_us((u64)s * 1000000); } return 0; }

// ---------------------------------------------------------- process, signals
static void set_sig(int sig, void* h) { if (sig == SIGPIPE) proc(cur_proc()).sigpipe_ignored = h == (void*)SIG_IGN; }
sighandler_t signal(int sig, sighandler_t h) { if (live()) { Enter e; set_sig(sig, (void*)h); } return SIG_DFL; }
int sigaction(int sig, const struct sigaction* a, struct sigaction*) { if (live() && a) { Enter e; set_sig(sig, (void*)a->sa_handler); } return 0; }
int sigprocmask(int, const sigset_t*, sigset_t*) { return 0; }
void exit(int code) { if (live()) { point("exit"); vfs_exit_flush(); proc_exit(cur_proc(), code & 255); } syscall(SYS_exit_group, code); __builtin_unreachable(); }
pid_t wait(int* s) { if (live()) { errno = ECHILD; return -1; } return syscall(SYS_wait4, -1, s, 0, nullptr); }
}
namespace sim {
void real_sigaction_all(void (*h)(int, siginfo_t*, void*)) {
  struct ksig { void* h; unsigned long flags; void (*rest)(); unsigned long mask; };
  // the kernel needs a restorer only to return from the handler; ours never returns
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) {
    ksig k; k.h = (void*)h; k.flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | 0x04000000; k.rest = []() {}; k.mask = 0;
    syscall(SYS_rt_sigaction, s, &k, nullptr, 8);
  }
}

// =============================================================== descriptors
std::map<int, VFd>& vfds() { static std::map<int, VFd>* m = new std::map<int, VFd>; return *m; }
int vfd_new(const VFd& v) {
  auto& m = vfds();
  int n = VBASE;
  for (auto& kv : m) { if (kv.first != n) break; ++n; }
  m[n] = v;
  m[n].owner = cur_proc();
  return n;
}

// =============================================================== network
struct Pipe {                   // one direction of a connection
  std::string buf;              // readable now
  std::deque<std::pair<u64, std::string>> flight;
  bool fin = false;             // writer closed: end of stream after the data
  bool dead = false;            // reader is gone
  size_t cap = 65536;
  size_t used() { size_t n = buf.size(); for (auto& f : flight) n += f.second.size(); return n; }
  void settle() { while (!flight.empty() && flight.front().first <= clock_raw()) { buf += flight.front().second; flight.pop_front(); } }
};
struct Conn { Pipe p[2]; bool rst[2] = {false, false}; bool closed[2] = {false, false}; bool sent_dead[2] = {false, false}; };
struct Listener { std::deque<std::shared_ptr<Conn>> q; int backlog = 10, port = 0; bool closed = false; };
struct NetFd { int side = 0; std::shared_ptr<Conn> c; std::shared_ptr<Listener> l; int port = 0; u64 rcv_timeout = 0; };
static std::map<int, NetFd>& nets() { static auto* m = new std::map<int, NetFd>; return *m; }
static std::map<int, std::shared_ptr<Listener>>& ports() { static auto* m = new std::map<int, std::shared_ptr<Listener>>; return *m; }

static int sock_new() { VFd v; v.kind = VFd::SOCK; int fd = vfd_new(v); nets()[fd] = NetFd(); return fd; }
static void reset(Conn& c) {
  for (int i = 0; i < 2; ++i) { c.rst[i] = true; c.p[i].flight.clear(); }
}
static void hb_conn_release(Conn& c, int side) { hb_release(&c.p[side]); }

static long do_recv(int fd, void* buf, size_t n, int flags, bool faults) {
  auto it = nets().find(fd);
  if (it == nets().end() || !it->second.c) { errno = ENOTCONN; return -1; }
  auto c = it->second.c; int side = it->second.side;
  Pipe& in = c->p[1 - side];
  if (faults) {
    if (answer(S_NET, 1, cfg.net_eintr)) { count_fault(F_NET_EINTR); errno = EINTR; return -1; }
    if (answer(S_NET, 1, cfg.net_reset)) { count_fault(F_NET_RESET); sim_eventlog("connection of fd %d reset", fd); reset(*c); }
  }
  if (n == 0) return 0;
  u64 dl = it->second.rcv_timeout ? clock_raw() + it->second.rcv_timeout : 0;
  size_t got = 0;
  char* out = (char*)buf;
  for (;;) {
    in.settle();
    if (in.buf.empty() && !in.flight.empty()) {
      u64 t = in.flight.front().first;
      block_until([&] { in.settle(); return !in.buf.empty() || c->rst[side]; }, "recv (data in flight)", t);
      in.settle();
    }
    if (in.buf.empty()) {
      if (c->rst[side]) { if (got) return got; errno = ECONNRESET; return -1; }
      if (in.fin && in.flight.empty()) return got;
      if (flags & MSG_DONTWAIT) { if (got) return got; errno = EAGAIN; return -1; }
      block_until([&] { in.settle(); return !in.buf.empty() || (in.fin && in.flight.empty()) || !in.flight.empty() || c->rst[side] || c->closed[side]; }, "recv", dl);
      if (c->closed[side]) { errno = EBADF; return -1; }
      if (dl && cur->timed_out) { if (got) return got; errno = EAGAIN; return -1; }
      continue;
    }
    size_t k = std::min(n - got, in.buf.size());
    if (faults && k > 1 && answer(S_NET, 1, cfg.net_short)) {
      count_fault(F_NET_SHORT_RECV);
      k = 1 + answer(S_NET, k - 2, 700) % k;
    }
    memcpy(out + got, in.buf.data(), k);
    if (!(flags & MSG_PEEK)) in.buf.erase(0, k);
    got += k;
    if (!(flags & MSG_PEEK)) proc(cur_proc()).received += k;
    hb_acquire(&in);
    if (!(flags & MSG_WAITALL) || got == n) return got;
  }
}
static void sigpipe(int flags) {
  if (!(flags & MSG_NOSIGNAL) && !proc(cur_proc()).sigpipe_ignored && cur_proc() != 0) {
    sim_eventlog("process %s killed by SIGPIPE", proc(cur_proc()).name.c_str());
    proc(cur_proc()).killed = true;
    proc_exit(cur_proc(), 128 + SIGPIPE);
  }
  errno = EPIPE;
}
static long do_send(int fd, const void* buf, size_t n, int flags, bool faults) {
  auto it = nets().find(fd);
  if (it == nets().end() || !it->second.c) { errno = ENOTCONN; return -1; }
  auto c = it->second.c; int side = it->second.side;
  Pipe& out = c->p[side];
  if (faults) {
    if (answer(S_NET, 1, cfg.net_eintr)) { count_fault(F_NET_EINTR); errno = EINTR; return -1; }
    if (answer(S_NET, 1, cfg.net_reset)) { count_fault(F_NET_RESET); sim_eventlog("connection of fd %d reset", fd); reset(*c); }
  }
  size_t want = n;
  if (faults && n > 1 && answer(S_NET, 1, cfg.net_sshort)) { count_fault(F_NET_SHORT_SEND); want = 1 + answer(S_NET, n - 2, 700) % n; }
  size_t done = 0;
  while (done < want) {
    if (c->rst[side] || out.fin) { if (done) return done; if (c->rst[side] && !c->sent_dead[side]) { c->sent_dead[side] = true; errno = ECONNRESET; if (!out.dead) return -1; } sigpipe(flags); return -1; }
    if (out.dead) {                      // peer closed: the first send is answered by a reset
      c->rst[side] = true; c->sent_dead[side] = true;
      return want;
    }
    size_t room = out.used() < out.cap ? out.cap - out.used() : 0;
    if (!room) {
      count_fault(F_NET_BACKPRESSURE);
      block_until([&] { return out.used() < out.cap || out.dead || c->rst[side] || c->closed[side]; }, "send (peer does not read)");
      if (c->closed[side]) { errno = EBADF; return -1; }
      if (hb_stuck()) { errno = EIO; return -1; }
      continue;
    }
    size_t k = std::min(room, want - done);
    u64 at = out.flight.empty() ? clock_raw() : out.flight.back().first;
    if (answer(S_NET, 1, cfg.net_delay)) { count_fault(F_NET_DELAY); at += 50 + answer(S_NET, 1000000, 900) % 5000; }
    out.flight.push_back({at, std::string((const char*)buf + done, k)});
    out.settle();
    done += k;
    hb_conn_release(*c, side);
  }
  return done;
}
bool hb_stuck() { return false; }
static void conn_close(NetFd& nf, bool abortive) {
  if (nf.c) {
    Conn& c = *nf.c; int s = nf.side;
    if (c.closed[s]) return;
    c.closed[s] = true;
    Pipe& in = c.p[1 - s]; Pipe& out = c.p[s];
    in.settle();
    in.dead = true;
    if (abortive || !in.buf.empty() || !in.flight.empty()) { c.rst[1 - s] = true; if (abortive) out.flight.clear(); in.buf.clear(); in.flight.clear(); }
    out.fin = true;
  }
  if (nf.l) {
    nf.l->closed = true;
    for (auto& q : nf.l->q) { q->rst[0] = true; }
    ports().erase(nf.l->port);
  }
}
void sock_close(int fd) { conn_close(nets()[fd], false); nets().erase(fd); vfds().erase(fd); }
void net_kill_proc(int p) {
  std::vector<int> v;
  for (auto& kv : vfds()) if (kv.second.owner == p && kv.second.kind == VFd::SOCK) v.push_back(kv.first);
  for (int fd : v) sock_close(fd);
}
int open_sockets(int p) { int n = 0; for (auto& kv : vfds()) if (kv.second.owner == p && kv.second.kind == VFd::SOCK) ++n; return n; }
bool net_listening(int port) { return ports().count(port); }
static int do_connect(int fd, int port) {
  auto& nf = nets()[fd];
  auto it = ports().find(port);
  if (it == ports().end()) { errno = ECONNREFUSED; return -1; }
  auto l = it->second;
  if ((int)l->q.size() > l->backlog) block_until([&] { return l->closed || (int)l->q.size() <= l->backlog; }, "connect (backlog full)");
  if (l->closed) { errno = ECONNREFUSED; return -1; }
  auto c = std::make_shared<Conn>();
  c->p[0].cap = c->p[1].cap = cfg.net_cap;
  nf.c = c; nf.side = 0;
  hb_release(&c->p[0]);
  l->q.push_back(c);
  return 0;
}
int net_connect(int port) {
  { yield_point("client connects"); }
  Enter e;
  int fd = sock_new();
  if (do_connect(fd, port) < 0) { int er = errno; sock_close(fd); errno = er; return -1; }
  return fd;
}
long net_send(int fd, const void* p, size_t n) { yield_point("client sends"); Enter e; long r = do_send(fd, p, n, MSG_NOSIGNAL, false); return r; }
long net_recv(int fd, void* p, size_t n) { yield_point("client receives"); Enter e; return do_recv(fd, p, n, 0, false); }
void net_close(int fd, bool rst) { yield_point("client closes"); Enter e; conn_close(nets()[fd], rst); nets().erase(fd); vfds().erase(fd); }
}  // namespace sim

extern "C" {
int socket(int d, int t, int p) { if (!live()) return -1; point("socket"); Enter e; return sock_new(); }
int setsockopt(int fd, int lv, int opt, const void* v, socklen_t n) {
  if (!live()) return 0;
  Enter e;
  if (lv == SOL_SOCKET && opt == SO_RCVTIMEO && nets().count(fd)) { auto* tv = (const struct timeval*)v; nets()[fd].rcv_timeout = tv->tv_sec * 1000000ull + tv->tv_usec; }
  return 0;
}
int getsockopt(int, int, int, void*, socklen_t*) { return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) {
  Enter e; int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  if (ports().count(port)) { errno = EADDRINUSE; return -1; }
  nets()[fd].port = port; return 0;
}
int listen(int fd, int b) {
  point("listen"); Enter e;
  auto l = std::make_shared<Listener>(); l->backlog = b; l->port = nets()[fd].port;
  nets()[fd].l = l; ports()[l->port] = l; return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  point("accept"); Enter e;
  auto l = nets()[fd].l;
  if (!l) { errno = EINVAL; return -1; }
  block_until([&] { return !l->q.empty() || l->closed; }, "accept");
  if (l->q.empty()) { errno = EBADF; return -1; }
  if (int v = answer(S_NET, 3, cfg.accept_err)) {
    count_fault(F_ACCEPT_ERR);
    if (v == 1) { auto c = l->q.front(); l->q.pop_front(); reset(*c); errno = ECONNABORTED; }
    else errno = v == 2 ? EINTR : EMFILE;
    return -1;
  }
  auto c = l->q.front(); l->q.pop_front();
  int nfd = sock_new();
  nets()[nfd].c = c; nets()[nfd].side = 1;
  hb_acquire(&c->p[0]);
  if (a) { auto* s = (struct sockaddr_in*)a; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x7f000001); s->sin_port = htons(40000); if (n) *n = sizeof *s; }
  return nfd;
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int) { return accept(fd, a, n); }
int connect(int fd, const struct sockaddr* a, socklen_t) { point("connect"); Enter e; return do_connect(fd, ntohs(((const struct sockaddr_in*)a)->sin_port)); }
ssize_t recv(int fd, void* b, size_t n, int f) { point("recv"); Enter e; return do_recv(fd, b, n, f, true); }
ssize_t send(int fd, const void* b, size_t n, int f) { point("send"); Enter e; return do_send(fd, b, n, f, true); }
ssize_t recvfrom(int fd, void* b, size_t n, int f, struct sockaddr*, socklen_t*) { return recv(fd, b, n, f); }
ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr*, socklen_t) { return send(fd, b, n, f); }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int f) { return recv(fd, b, n, f); }
int shutdown(int fd, int how) {
  point("shutdown"); Enter e;
  auto it = nets().find(fd); if (it == nets().end() || !it->second.c) { errno = ENOTCONN; return -1; }
  Conn& c = *it->second.c; int s = it->second.side;
  if (how != SHUT_RD) c.p[s].fin = true;
  return 0;
}
struct hostent* gethostbyname(const char*) {
  static struct in_addr ad; static char* list[2]; static struct hostent h;
  ad.s_addr = htonl(0x7f000001); list[0] = (char*)&ad; list[1] = nullptr;
  h.h_addr_list = list; h.h_length = 4; h.h_addrtype = AF_INET; h.h_name = (char*)"sim";
  return &h;
}
// the C library formats dates in buffers that all threads share
static struct tm shared_tm; static char shared_asctime[64];
void __tsan_write_range(void*, unsigned long);
static void shared_write(void* p, size_t n) { if (live()) __tsan_write_range(p, n); }
struct tm* gmtime(const time_t* t) { struct tm r; gmtime_r(t, &r); shared_write(&shared_tm, sizeof shared_tm); shared_tm = r; return &shared_tm; }
struct tm* localtime(const time_t* t) { return gmtime(t); }
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
char* asctime(const struct tm* t) { char b[64]; asctime_r(t, b); shared_write(shared_asctime, 64); memcpy(shared_asctime, b, 64); return shared_asctime; }
char* ctime(const time_t* t) { return asctime(gmtime(t)); }

ssize_t sock_read(int fd, void* b, size_t n) { point("read(socket)"); Enter e; return do_recv(fd, b, n, 0, true); }
ssize_t sock_write(int fd, const void* b, size_t n) { point("write(socket)"); Enter e; return do_send(fd, b, n, 0, true); }

// ------------------------------------------------------- dynamic loading
#define FACTORY(f) void* sim_create_##f(const char*); const char* sim_type_id_##f();
#define MAIN(m)
#include "registry.inc"
#undef FACTORY
#undef MAIN
#define MAIN(m) int sim_main_##m(int, char**);
#define FACTORY(f)
#include "registry.inc"
#undef FACTORY
#undef MAIN
struct Fac { const char* name; void* create; void* type_id; };
static Fac facs[] = {
#define FACTORY(f) {#f, (void*)sim_create_##f, (void*)sim_type_id_##f},
#define MAIN(m)
#include "registry.inc"
#undef FACTORY
#undef MAIN
    {nullptr, nullptr, nullptr}};
struct MainEnt { const char* name; int (*fn)(int, char**); };
static MainEnt mains[] = {
#define MAIN(m) {#m, sim_main_##m},
#define FACTORY(f)
#include "registry.inc"
#undef FACTORY
#undef MAIN
    {nullptr, nullptr}};
int sim_run_main(const char* name, int argc, char** argv) {
  for (MainEnt* m = mains; m->name; ++m) if (!strcmp(m->name, name)) return m->fn(argc, argv);
  harness_error(std::string("no main called ") + name);
}
static const char* dl_err;
static int dl_open_count;
void* __wrap_dlopen(const char* f, int) {
  point("dlopen"); Enter e;
  if (answer(S_DL, 1, cfg.dl_fail)) { count_fault(F_DLOPEN_FAIL); dl_err = "simulated dlopen failure"; return nullptr; }
  const char* b = strrchr(f, '/'); b = b ? b + 1 : f;
  for (Fac* x = facs; x->name; ++x)
    if (std::string(x->name) + ".so" == b) { ++dl_open_count; return x; }
  dl_err = "no such module";
  return nullptr;
}
void* __wrap_dlsym(void* h, const char* n) {
  Enter e; dl_err = nullptr;
  Fac* x = (Fac*)h;
  if (!strcmp(n, "create")) return x->create;
  if (!strcmp(n, "type_id")) return x->type_id;
  dl_err = "no such symbol";
  return nullptr;
}
int __wrap_dlclose(void* h) { Enter e; --dl_open_count; return 0; }
char* __wrap_dlerror() { const char* r = dl_err; dl_err = nullptr; return (char*)r; }
}
