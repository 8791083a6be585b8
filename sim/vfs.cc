// The simulated disk: an in-memory file system with injected faults, plus the
// capture of the standard streams of simulated processes.
#include "kernel.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <streambuf>
#include "vfd.h"

using namespace sim;
namespace sim {
static inline bool live() { return in_sim && cur != &host; }
static inline void point(const char* w) { if (g_off == 0) yield_point(w); }

struct Pend { long long off; std::string data; bool trunc; };
struct Inode {
  u64 id = 0; bool dir = false; int nopen = 0; int lock_owner = -1;
  std::string data, synced; std::vector<Pend> pend;
  mode_t mode = 0644;
};
typedef std::map<std::string, Inode*> Tree;
struct Meta { int kind; std::string a, b; Inode* ino; };      // 0 link, 1 unlink, 2 rename
static Tree& tree() { static Tree* t = new Tree; return *t; }
static Tree& dtree() { static Tree* t = new Tree; return *t; }
static std::vector<Meta>& journal() { static auto* j = new std::vector<Meta>; return *j; }
static u64 inode_ids, n_ops;
static long long written;

static std::string norm(const char* p) {
  std::string s = p[0] == '/' ? p : std::string("/sim/cwd/") + p, r;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  for (auto& c : parts) r += "/" + c;
  if (r.empty()) r = "/";
  return r;
}
static std::string parent_of(const std::string& p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static Inode* find(const std::string& p) { auto it = tree().find(p); return it == tree().end() ? nullptr : it->second; }
static void meta_apply(Tree& t, const Meta& m) {
  if (m.kind == 0) t[m.a] = m.ino;
  else if (m.kind == 1) t.erase(m.a);
  else {
    auto it = t.find(m.a);
    if (it == t.end()) return;
    Inode* x = it->second;
    t.erase(it); t[m.b] = x;
    if (x->dir) {
      std::vector<std::string> mv;
      for (auto i = t.lower_bound(m.a + "/"); i != t.end() && i->first.compare(0, m.a.size() + 1, m.a + "/") == 0; ++i) mv.push_back(i->first);
      for (auto& s : mv) { Inode* y = t[s]; t.erase(s); t[m.b + s.substr(m.a.size())] = y; }
    }
  }
}
static void meta(int k, const std::string& a, const std::string& b, Inode* i) {
  Meta m{k, a, b, i};
  meta_apply(tree(), m);
  journal().push_back(m);
}
static void commit_journal() { for (auto& m : journal()) meta_apply(dtree(), m); journal().clear(); }
static Inode* make(const std::string& p, bool dir) { Inode* i = new Inode; i->id = ++inode_ids; i->dir = dir; meta(0, p, "", i); return i; }
static void pend_apply(std::string& d, const Pend& p, size_t k) {
  if (p.trunc) { d.resize(p.off, '\0'); return; }
  if (!k) return;
  if ((long long)d.size() < p.off) d.resize(p.off, '\0');
  if (d.size() < p.off + k) d.resize(p.off + k, '\0');
  d.replace(p.off, k, p.data, 0, k);
}
static void ino_write(Inode* i, long long off, const char* b, size_t n) {
  Pend p{off, std::string(b, n), false};
  pend_apply(i->data, p, n);
  if (cfg.crash_power) i->pend.push_back(p);
}
static void ino_trunc(Inode* i, long long n) {
  i->data.resize(n, '\0');
  if (cfg.crash_power) i->pend.push_back(Pend{n, "", true});
}
static void ino_sync(Inode* i) { if (!i->dir) { i->synced = i->data; i->pend.clear(); } commit_journal(); }

void vfs_mkdirs(const std::string& p) {
  Karena k;
  if (p == "/" || p.empty() || find(p)) return;
  vfs_mkdirs(parent_of(p));
  make(p, true);
}
void vfs_put(const std::string& p0, const std::string& data) {
  Karena k;
  std::string p = norm(p0.c_str());
  vfs_mkdirs(parent_of(p));
  Inode* i = find(p);
  if (!i) i = make(p, false);
  i->data = i->synced = data; i->pend.clear();
  commit_journal();
}
bool vfs_get(const std::string& p, std::string& d) { Karena k; Inode* i = find(norm(p.c_str())); if (!i || i->dir) return false; d = i->data; return true; }
bool vfs_exists(const std::string& p) { Karena k; return find(norm(p.c_str())); }
void vfs_remove_tree(const std::string& p) {
  Karena k;
  std::vector<std::string> v;
  for (auto& kv : tree()) if (kv.first == p || kv.first.compare(0, p.size() + 1, p + "/") == 0) v.push_back(kv.first);
  for (auto& s : v) meta(1, s, "", nullptr);
  commit_journal();
}
std::vector<std::string> vfs_list(const std::string& prefix) {
  Karena k; std::vector<std::string> v;
  for (auto& kv : tree()) if (kv.first.compare(0, prefix.size(), prefix) == 0 && !kv.second->dir) v.push_back(kv.first);
  return v;
}
void vfs_load_dir(const std::string& real, const std::string& virt) {
  Karena k;
  int fd = syscall(SYS_open, real.c_str(), O_RDONLY | O_DIRECTORY);
  if (fd < 0) { fprintf(stderr, "sim: cannot read %s\n", real.c_str()); _exit(96); }
  char buf[65536];
  std::vector<std::pair<std::string, int>> names;
  for (;;) {
    long n = syscall(SYS_getdents64, fd, buf, sizeof buf);
    if (n <= 0) break;
    for (long o = 0; o < n;) { auto* d = (struct dirent64*)(buf + o); names.push_back({d->d_name, d->d_type}); o += d->d_reclen; }
  }
  syscall(SYS_close, fd);
  std::sort(names.begin(), names.end());
  vfs_mkdirs(virt);
  for (auto& n : names) {
    if (n.first[0] == '.') continue;
    if (n.second == DT_DIR) { vfs_load_dir(real + "/" + n.first, virt + "/" + n.first); continue; }
    int f = syscall(SYS_open, (real + "/" + n.first).c_str(), O_RDONLY);
    std::string d; long r;
    while ((r = syscall(SYS_read, f, buf, sizeof buf)) > 0) d.append(buf, r);
    syscall(SYS_close, f);
    vfs_put(virt + "/" + n.first, d);
  }
}
static void put_u64(std::string& s, u64 v) { s.append((char*)&v, 8); }
static std::string image_of(const Tree& t, std::function<std::string(Inode*)> content) {
  std::string s; put_u64(s, t.size());
  for (auto& kv : t) {
    put_u64(s, kv.first.size()); s += kv.first; put_u64(s, kv.second->dir);
    std::string d = kv.second->dir ? "" : content(kv.second);
    put_u64(s, d.size()); s += d;
  }
  return s;
}
std::string vfs_image() { Karena k; return image_of(tree(), [](Inode* i) { return i->data; }); }
std::string vfs_crash_image(int power, Rng& rng) {
  Karena k;
  if (!power) return vfs_image();
  Tree t = dtree();
  auto& j = journal();
  size_t keep = j.empty() ? 0 : rng.below(j.size() + 1);
  if (keep < j.size()) count_fault(F_LOST_WRITE);
  for (size_t i = 0; i < keep; ++i) meta_apply(t, j[i]);
  return image_of(t, [&](Inode* i) {
    std::string d = i->synced;
    size_t n = i->pend.size(), kp = n ? rng.below(n + 1) : 0;
    for (size_t x = 0; x < kp; ++x) pend_apply(d, i->pend[x], i->pend[x].data.size());
    if (kp < n) {
      count_fault(F_LOST_WRITE);
      if (!i->pend[kp].trunc && rng.permille(500)) { count_fault(F_TORN_WRITE); pend_apply(d, i->pend[kp], rng.below(i->pend[kp].data.size() + 1)); }
    }
    return d;
  });
}
void vfs_restore(const std::string& s) {
  Karena k;
  tree().clear(); dtree().clear(); journal().clear();
  size_t o = 0;
  auto g = [&] { u64 v; memcpy(&v, s.data() + o, 8); o += 8; return v; };
  u64 n = g();
  for (u64 i = 0; i < n; ++i) {
    u64 l = g(); std::string p = s.substr(o, l); o += l;
    bool dir = g(); u64 dl = g();
    Inode* x = make(p, dir);
    x->data = x->synced = s.substr(o, dl); o += dl;
  }
  commit_journal();
}
u64 vfs_ops() { return n_ops; }
long long vfs_written() { return written; }
void vfs_mark_durable() { Karena k; for (auto& kv : tree()) if (!kv.second->dir) { kv.second->synced = kv.second->data; kv.second->pend.clear(); } commit_journal(); }

// every operation that changes the disk passes here
static void mutating(const char* what, const std::string& path) {
  ++n_ops;
  if (g_verbose) sim_eventlog("%s: disk op %llu %s %s", cur->name.c_str(), (unsigned long long)n_ops, what, path.c_str());
  add_hash(n_ops * 131 + what[0]);
}
static bool crash_now() { return cfg.crash_at >= 0 && (long long)n_ops == cfg.crash_at; }
[[noreturn]] static void crash() {
  count_fault(cfg.crash_power ? F_CRASH_POWER : F_CRASH_PROCESS);
  Rng r(plan->seed * 77 + 3);
  std::string im = vfs_crash_image(cfg.crash_power, r);
  if (im.size() > BLOB_MAX) harness_error("crash image too large");
  shm->blob_len = im.size(); memcpy(shm->blob, im.data(), im.size());
  sim_eventlog("%s at disk operation %llu", cfg.crash_power ? "POWER LOSS" : "PROCESS CRASH", (unsigned long long)n_ops);
  phase_end(PHASE_CRASHED);
}
static bool meta_fault(const char* what, const std::string& p) {
  if (answer(S_DISK, 1, cfg.disk_meta)) { count_fault(F_DISK_META_FAIL); sim_eventlog("%s %s fails with EIO", what, p.c_str()); errno = EIO; return true; }
  return false;
}

// ---------------------------------------------------------------- operations
static int do_open(const char* path, int flags, mode_t mode) {
  Enter e;
  std::string p = norm(path);
  if (p == "/dev/null") { Inode* i = find("/sim/null"); if (!i) { vfs_put("/sim/null", ""); i = find("/sim/null"); } VFd v; v.ino = i; v.flags = flags | O_APPEND << 8; v.path = p; ++i->nopen; return vfd_new(v); }
  Inode* i = find(p);
  int acc = flags & O_ACCMODE;
  bool creates = !i && (flags & O_CREAT), truncs = i && (flags & O_TRUNC) && acc != O_RDONLY && !i->dir;
  if (creates || truncs) { mutating(creates ? "create" : "truncate", p); if (crash_now()) crash(); }
  if (!i && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (i && i->dir && acc != O_RDONLY) { errno = EISDIR; return -1; }
  if (i && !i->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
  if (answer(S_DISK, 1, cfg.disk_open) || (acc != O_RDONLY && answer(S_DISK, 1, cfg.open_w))) {
    count_fault(F_DISK_OPEN_FAIL); sim_eventlog("open %s fails", p.c_str());
    errno = acc == O_RDONLY ? EACCES : ENOSPC; return -1;
  }
  if (creates) {
    Inode* d = find(parent_of(p));
    if (!d || !d->dir) { errno = ENOENT; return -1; }
    i = make(p, false); i->mode = mode;
  }
  if (truncs) ino_trunc(i, 0);
  VFd v; v.kind = i->dir ? VFd::DIR_ : VFd::FILE_; v.ino = i; v.flags = flags; v.path = p;
  ++i->nopen;
  add_hash(p);
  return vfd_new(v);
}
static VFd* get(int fd) { auto it = vfds().find(fd); return it == vfds().end() ? nullptr : &it->second; }
static bool is_null(VFd* v) { return v->path == "/dev/null"; }
static ssize_t do_read(VFd* v, void* b, size_t n, long long off) {
  if (is_null(v)) return 0;
  if (v->ino->dir) { errno = EISDIR; return -1; }
  if ((v->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (n && answer(S_DISK, 1, cfg.disk_eio_r)) { count_fault(F_DISK_EIO_READ); sim_eventlog("read of %s fails with EIO", v->path.c_str()); errno = EIO; return -1; }
  const std::string& d = v->ino->data;
  if (off >= (long long)d.size()) return 0;
  size_t k = std::min(n, d.size() - (size_t)off);
  if (k > 1 && answer(S_DISK, 1, cfg.disk_short)) { count_fault(F_DISK_SHORT_READ); k = 1 + answer(S_DISK, k - 1, 700) % k; }
  memcpy(b, d.data() + off, k);
  return k;
}
static ssize_t do_write(VFd* v, const void* b, size_t n, long long off) {
  if (is_null(v)) return n;
  if ((v->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (!n) return 0;
  mutating("write", v->path);
  if (crash_now()) {
    if (!cfg.crash_power && n > 4096) {       // a kill can land between two pages of one write
      size_t k = answer(S_DISK, n / 4096, 500) * 4096;
      if (k) { count_fault(F_TORN_WRITE); ino_write(v->ino, off, (const char*)b, std::min(k, n)); }
    }
    crash();
  }
  if (answer(S_DISK, 1, cfg.disk_eio_w)) { count_fault(F_DISK_EIO_WRITE); sim_eventlog("write to %s fails with EIO", v->path.c_str()); errno = EIO; return -1; }
  if (cfg.disk_quota >= 0 && !g_muted) {
    long long room = cfg.disk_quota - written;
    if (room <= 0) { count_fault(F_DISK_ENOSPC); sim_eventlog("write to %s: disk full", v->path.c_str()); errno = ENOSPC; return -1; }
    if ((long long)n > room) { count_fault(F_DISK_SHORT_WRITE); n = room; }
  } else if (n > 1 && answer(S_DISK, 1, cfg.disk_short)) { count_fault(F_DISK_SHORT_WRITE); n = 1 + answer(S_DISK, n - 1, 700) % n; }
  written += n;
  ino_write(v->ino, off, (const char*)b, n);
  add_hash(n);
  return n;
}
static ssize_t seq_write(VFd* v, const void* b, size_t n) {
  if (v->flags & O_APPEND) v->pos = v->ino->data.size();
  ssize_t r = do_write(v, b, n, v->pos);
  if (r > 0) v->pos += r;
  return r;
}
static void close_ref(VFd* v) {
  if (!v->ino) return;
  --v->ino->nopen;
  if (v->ino->lock_owner == v->owner) v->ino->lock_owner = -1;
}
static int do_close(int fd) {
  VFd* v = get(fd);
  if (!v) { errno = EBADF; return -1; }
  if (v->kind == VFd::SOCK) { sock_close(fd); return 0; }
  close_ref(v);
  vfds().erase(fd);
  return 0;
}
int open_files(int p) { int n = 0; for (auto& kv : vfds()) if (kv.second.owner == p && kv.second.kind != VFd::SOCK) ++n; return n; }
void vfs_close_proc(int p) {
  std::vector<int> v;
  for (auto& kv : vfds()) if (kv.second.owner == p) v.push_back(kv.first);
  for (int fd : v) do_close(fd);
}
static void fill_stat(Inode* i, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_ino = i->id; st->st_dev = 7; st->st_nlink = 1; st->st_mode = i->dir ? S_IFDIR | 0755 : S_IFREG | i->mode;
  st->st_size = i->data.size(); st->st_blksize = 4096; st->st_blocks = (i->data.size() + 511) / 512;
  st->st_mtime = now_us() / 1000000;
}
static int do_stat(const char* path, struct stat* st) {
  Enter e;
  Inode* i = find(norm(path));
  if (!i) { errno = ENOENT; return -1; }
  fill_stat(i, st);
  return 0;
}
static int do_fstat(int fd, struct stat* st) {
  Enter e;
  VFd* v = get(fd);
  if (!v) { errno = EBADF; return -1; }
  if (v->kind == VFd::SOCK) { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0600; return 0; }
  if (is_null(v)) { fill_stat(v->ino, st); st->st_mode = S_IFCHR | 0666; return 0; }
  fill_stat(v->ino, st);
  return 0;
}
static int do_unlink(const char* path, bool dir) {
  point("unlink"); Enter e;
  std::string p = norm(path);
  mutating(dir ? "rmdir" : "unlink", p); if (crash_now()) crash();
  Inode* i = find(p);
  if (!i) { errno = ENOENT; return -1; }
  if (i->dir != dir) { errno = dir ? ENOTDIR : EISDIR; return -1; }
  if (meta_fault("unlink", p)) return -1;
  if (dir) { auto it = tree().lower_bound(p + "/"); if (it != tree().end() && it->first.compare(0, p.size() + 1, p + "/") == 0) { errno = ENOTEMPTY; return -1; } }
  meta(1, p, "", nullptr);
  return 0;
}
static int do_rename(const char* a, const char* b) {
  point("rename"); Enter e;
  std::string x = norm(a), y = norm(b);
  mutating("rename", x); if (crash_now()) crash();
  if (!find(x)) { errno = ENOENT; return -1; }
  if (meta_fault("rename", x)) return -1;
  meta(2, x, y, nullptr);
  return 0;
}
static int do_mkdir(const char* a) {
  point("mkdir"); Enter e;
  std::string p = norm(a);
  if (find(p)) { errno = EEXIST; return -1; }
  mutating("mkdir", p); if (crash_now()) crash();
  if (meta_fault("mkdir", p)) return -1;
  Inode* d = find(parent_of(p));
  if (!d || !d->dir) { errno = ENOENT; return -1; }
  make(p, true);
  return 0;
}
static int do_sync(int fd) {
  point("fsync"); Enter e;
  VFd* v = get(fd);
  if (!v || !v->ino) { errno = EBADF; return -1; }
  mutating("fsync", v->path); if (crash_now()) crash();
  if (answer(S_DISK, 1, cfg.disk_sync)) { count_fault(F_DISK_SYNC_FAIL); errno = EIO; return -1; }
  ino_sync(v->ino);
  return 0;
}

// ------------------------------------------------ stdio on simulated files
struct Cookie { int fd; };
static std::map<FILE*, int>& fds_of() { static auto* m = new std::map<FILE*, int>; return *m; }
static ssize_t ck_read(void* c, char* b, size_t n) { Enter e; VFd* v = get(((Cookie*)c)->fd); if (!v) { errno = EBADF; return -1; } ssize_t r = do_read(v, b, n, v->pos); if (r > 0) v->pos += r; return r; }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  Enter e;
  VFd* v = get(((Cookie*)c)->fd);
  if (!v) { errno = EBADF; return 0; }
  size_t done = 0;
  while (done < n) { ssize_t r = seq_write(v, b + done, n - done); if (r < 0) return done; done += r; }
  return done;
}
static int ck_seek(void* c, off64_t* off, int whence) {
  Enter e;
  VFd* v = get(((Cookie*)c)->fd);
  if (!v) { errno = EBADF; return -1; }
  long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? v->pos : (long long)v->ino->data.size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  *off = v->pos = base + *off;
  return 0;
}
static int ck_close(void* c) { Enter e; int fd = ((Cookie*)c)->fd; for (auto it = fds_of().begin(); it != fds_of().end();) if (it->second == fd) it = fds_of().erase(it); else ++it; do_close(fd); delete (Cookie*)c; return 0; }
static FILE* wrap_fd(int fd, const char* mode) {
  Enter e;
  std::string m; for (const char* p = mode; *p; ++p) if (strchr("rwa+", *p)) m += *p;
  FILE* f = fopencookie(new Cookie{fd}, m.c_str(), cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close});
  fds_of()[f] = fd;
  return f;
}
static FILE* do_fopen(const char* path, const char* mode) {
  point("fopen");
  int fl = 0;
  bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else { errno = EINVAL; return nullptr; }
  int fd = do_open(path, fl, 0666);
  return fd < 0 ? nullptr : wrap_fd(fd, mode);
}

// ------------------------------------------------------- standard streams
struct CapBuf : std::streambuf {
  bool err;
  explicit CapBuf(bool e) : err(e) {}
  bool put(const char* s, size_t n) {
    if (!live()) { syscall(SYS_write, err ? 2 : 1, s, n); return true; }
    if (g_off == 0 && cfg.log_yield) yield_point("log");
    Enter e;
    if (!err && n && (proc(cur_proc()).out_broken || answer(S_DISK, 1, cfg.out_fail))) {
      count_fault(F_STDOUT_FAIL); proc(cur_proc()).out_broken = true; errno = ENOSPC;
      sim_eventlog("write to the standard output fails");
      return false;
    }
    std::string& o = err ? proc(cur_proc()).err : proc(cur_proc()).out;
    if (o.size() < (4u << 20)) o.append(s, n);
    if (g_verbose) sim_eventlog("%s %s> %.*s", cur->name.c_str(), err ? "stderr" : "stdout", (int)std::min<size_t>(n, 300), s);
    return true;
  }
  int overflow(int c) override { if (c != EOF) { char ch = c; if (!put(&ch, 1)) return EOF; } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n) ? n : 0; }
  int sync() override { return live() && !err && proc(cur_proc()).out_broken ? -1 : 0; }
};
static CapBuf *cap_out, *cap_err;
static ssize_t cap_write(void* c, const char* b, size_t n) { return ((CapBuf*)c)->put(b, n) ? n : 0; }
static ssize_t cap_read(void*, char* b, size_t n) {
  if (!live()) return 0;
  point("read"); Enter e;
  ProcState& p = proc(cur_proc());
  size_t k = std::min(n, p.in.size() - p.in_pos);
  if (k > 1 && answer(S_DISK, 1, cfg.disk_short)) { count_fault(F_DISK_SHORT_READ); k = 1 + answer(S_DISK, k - 1, 700) % k; }
  memcpy(b, p.in.data() + p.in_pos, k); p.in_pos += k;
  return k;
}
struct InBuf : std::streambuf {
  char b[64];
  int underflow() override { ssize_t n = cap_read(nullptr, b, sizeof b); if (n <= 0) return EOF; setg(b, b, b + n); return (unsigned char)*b; }
};
static InBuf* cap_in;
void vfs_exit_flush() { std::vector<FILE*> v; { Karena k; for (auto& x : fds_of()) v.push_back(x.first); } for (FILE* f : v) fflush(f); }
static FILE *my_out, *my_err, *my_in;
void streams_init() {
  Karena k;
  cap_out = new CapBuf(false); cap_err = new CapBuf(true); cap_in = new InBuf;
  my_out = fopencookie(cap_out, "w", cookie_io_functions_t{nullptr, cap_write, nullptr, nullptr});
  my_err = fopencookie(cap_err, "w", cookie_io_functions_t{nullptr, cap_write, nullptr, nullptr});
  my_in = fopencookie(nullptr, "r", cookie_io_functions_t{cap_read, nullptr, nullptr, nullptr});
  setvbuf(my_out, nullptr, _IONBF, 0); setvbuf(my_err, nullptr, _IONBF, 0);
}
void streams_take() {       // in the child
  stdout = my_out; stderr = my_err; stdin = my_in;
  std::cout.rdbuf(cap_out); std::cerr.rdbuf(cap_err); std::clog.rdbuf(cap_err); std::cin.rdbuf(cap_in);
}
static int tmp_no;
}  // namespace sim

#define RAW(...) syscall(__VA_ARGS__)
extern "C" {
int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; va_end(ap);
  if (!live()) return RAW(SYS_open, p, fl, m);
  point("open"); return do_open(p, fl, m);
}
int open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = fl & O_CREAT ? va_arg(ap, mode_t) : 0; va_end(ap);
  if (!live()) return RAW(SYS_open, p, fl, m);
  point("open"); return do_open(p, fl, m);
}
int openat(int d, const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = fl & O_CREAT ? va_arg(ap, mode_t) : 0; va_end(ap);
  if (!live()) return RAW(SYS_openat, d, p, fl, m);
  point("open"); return do_open(p, fl, m);
}
int __open_2(const char* p, int fl) { return open(p, fl, 0); }
int __openat_2(int d, const char* p, int fl) { return openat(d, p, fl, 0); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd < VBASE) return live() ? 0 : RAW(SYS_close, fd); point("close"); Enter e; return do_close(fd); }
ssize_t read(int fd, void* b, size_t n) {
  if (fd < VBASE) return live() ? 0 : RAW(SYS_read, fd, b, n);
  VFd* v; { Enter e; v = get(fd); if (!v) { errno = EBADF; return -1; } }
  if (v->kind == VFd::SOCK) return sock_read(fd, b, n);
  point("read"); Enter e; v = get(fd); if (!v) { errno = EBADF; return -1; }
  ssize_t r = do_read(v, b, n, v->pos); if (r > 0) v->pos += r; return r;
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
  if (fd < VBASE) { if (!live()) return RAW(SYS_write, fd, b, n); if (fd == 1) cap_out->put((const char*)b, n); if (fd == 2) cap_err->put((const char*)b, n); return n; }
  VFd* v; { Enter e; v = get(fd); if (!v) { errno = EBADF; return -1; } }
  if (v->kind == VFd::SOCK) return sock_write(fd, b, n);
  point("write"); Enter e; v = get(fd); if (!v) { errno = EBADF; return -1; }
  return seq_write(v, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (fd < VBASE) return RAW(SYS_pread64, fd, b, n, o); point("pread"); Enter e; VFd* v = get(fd); if (!v || !v->ino) { errno = EBADF; return -1; } return do_read(v, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (fd < VBASE) return RAW(SYS_pwrite64, fd, b, n, o); point("pwrite"); Enter e; VFd* v = get(fd); if (!v || !v->ino) { errno = EBADF; return -1; } return do_write(v, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int n) {
  if (fd < VBASE) return RAW(SYS_readv, fd, v, n);
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) { ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (fd < VBASE && !live()) return RAW(SYS_writev, fd, v, n);
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
off_t lseek(int fd, off_t o, int wh) {
  if (fd < VBASE) return RAW(SYS_lseek, fd, o, wh);
  Enter e; VFd* v = get(fd);
  if (!v || !v->ino) { errno = v ? ESPIPE : EBADF; return -1; }
  long long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? v->pos : (long long)v->ino->data.size();
  if (base + o < 0) { errno = EINVAL; return -1; }
  return v->pos = base + o;
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
int ftruncate(int fd, off_t n) {
  if (fd < VBASE) return RAW(SYS_ftruncate, fd, n);
  point("ftruncate"); Enter e; VFd* v = get(fd); if (!v || !v->ino) { errno = EBADF; return -1; }
  mutating("truncate", v->path); if (crash_now()) crash();
  ino_trunc(v->ino, n); return 0;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) { if (!live()) return RAW(SYS_truncate, p, n); Enter e; Inode* i = find(norm(p)); if (!i) { errno = ENOENT; return -1; } mutating("truncate", p); if (crash_now()) crash(); ino_trunc(i, n); return 0; }
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int fsync(int fd) { return fd < VBASE ? RAW(SYS_fsync, fd) : do_sync(fd); }
int fdatasync(int fd) { return fd < VBASE ? RAW(SYS_fdatasync, fd) : do_sync(fd); }
void sync() { if (live()) { Enter e; for (auto& kv : tree()) if (!kv.second->dir) ino_sync(kv.second); } }
int stat(const char* p, struct stat* s) { return live() ? do_stat(p, s) : RAW(SYS_stat, p, s); }
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int lstat(const char* p, struct stat* s) { return live() ? do_stat(p, s) : RAW(SYS_lstat, p, s); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int fstat(int fd, struct stat* s) { return fd >= VBASE ? do_fstat(fd, s) : RAW(SYS_fstat, fd, s); }
int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
int fstatat(int d, const char* p, struct stat* s, int f) { return live() ? do_stat(p, s) : RAW(SYS_newfstatat, d, p, s, f); }
int fstatat64(int d, const char* p, struct stat64* s, int f) { return fstatat(d, p, (struct stat*)s, f); }
int access(const char* p, int m) { if (!live()) return RAW(SYS_access, p, m); Enter e; if (find(norm(p))) return 0; errno = ENOENT; return -1; }
int unlink(const char* p) { return live() ? do_unlink(p, false) : RAW(SYS_unlink, p); }
int rmdir(const char* p) { return live() ? do_unlink(p, true) : RAW(SYS_rmdir, p); }
int unlinkat(int d, const char* p, int f) { return live() ? do_unlink(p, f & AT_REMOVEDIR) : RAW(SYS_unlinkat, d, p, f); }
int remove(const char* p) {
  if (!live()) { int r = RAW(SYS_unlink, p); return r < 0 ? RAW(SYS_rmdir, p) : r; }
  bool dir; { Enter e; Inode* i = find(norm(p)); dir = i && i->dir; }
  return do_unlink(p, dir);
}
int rename(const char* a, const char* b) { return live() ? do_rename(a, b) : RAW(SYS_rename, a, b); }
int mkdir(const char* p, mode_t m) { return live() ? do_mkdir(p) : RAW(SYS_mkdir, p, m); }
int chmod(const char* p, mode_t m) { return live() ? 0 : RAW(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { return live() ? 0 : RAW(SYS_fchmod, fd, m); }
int chdir(const char*) { return 0; }
int link(const char*, const char*) { errno = EPERM; return -1; }
int symlink(const char*, const char*) { errno = EPERM; return -1; }
ssize_t readlink(const char* p, char* b, size_t n) { if (!live()) return RAW(SYS_readlink, p, b, n); errno = EINVAL; return -1; }
char* getcwd(char* b, size_t n) { static const char* c = "/sim/cwd"; if (!b) return strdup(c); if (n < 9) { errno = ERANGE; return nullptr; } return strcpy(b, c); }
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  if (fd < VBASE) return live() ? 0 : RAW(SYS_fcntl, fd, cmd, a);
  Enter e; VFd* v = get(fd); if (!v) { errno = EBADF; return -1; }
  if ((cmd == F_SETLK || cmd == F_SETLKW) && v->ino) {
    struct flock* f = (struct flock*)a;
    if (f->l_type == F_UNLCK) { if (v->ino->lock_owner == v->owner) v->ino->lock_owner = -1; }
    else if (v->ino->lock_owner >= 0 && v->ino->lock_owner != v->owner) { errno = EAGAIN; return -1; }
    else v->ino->lock_owner = v->owner;
    return 0;
  }
  if (cmd == F_GETFL) return v->flags;
  return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap);
  if (fd < VBASE) return RAW(SYS_ioctl, fd, rq, a);
  Enter e; VFd* v = get(fd);
  if (v && v->ino && rq == FIONREAD) { long long left = (long long)v->ino->data.size() - v->pos; *(int*)a = left > 0 ? left : 0; return 0; }
  errno = ENOTTY; return -1;
}
int poll(struct pollfd* p, nfds_t n, int t) { if (!live()) return RAW(SYS_poll, p, n, t); for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return n; }
int isatty(int) { errno = ENOTTY; return 0; }
int getrlimit(__rlimit_resource_t r, struct rlimit* l) { if (!live()) return RAW(SYS_getrlimit, r, l); l->rlim_cur = l->rlim_max = 1024; return 0; }
int getrlimit64(__rlimit_resource_t r, struct rlimit64* l) { return getrlimit(r, (struct rlimit*)l); }
pid_t getpid() { return live() ? 4242 + cur_proc() : RAW(SYS_getpid); }
pid_t gettid() { return live() ? 4242 : RAW(SYS_gettid); }
int flock(int, int) { return 0; }
int dup(int) { errno = ENOSYS; return -1; }
int dup2(int a, int b) { if (!live()) return RAW(SYS_dup2, a, b); errno = ENOSYS; return -1; }
int pipe(int* p) { if (!live()) return RAW(SYS_pipe, p); errno = ENOSYS; return -1; }
int system(const char* c) { sim_eventlog("system(%s) suppressed", c ? c : ""); return 127 << 8; }
FILE* popen(const char*, const char*) { errno = ENOSYS; return nullptr; }
int statvfs(const char*, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_bsize = 4096; return 0; }

FILE* fdopen(int fd, const char* m) {
  if (fd >= VBASE) return wrap_fd(fd, m);
  return nullptr;
}
FILE* fopen(const char* p, const char* m) {
  if (live()) return do_fopen(p, m);
  return nullptr;                   // the simulator itself uses raw system calls
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* freopen(const char*, const char*, FILE*) { return nullptr; }
int fileno(FILE* f) {
  if (f == my_out || f == stdout) return 1;
  if (f == my_err || f == stderr) return 2;
  if (f == my_in || f == stdin) return 0;
  Enter e; auto it = fds_of().find(f);
  if (it == fds_of().end()) { errno = EBADF; return -1; }
  return it->second;
}
FILE* tmpfile() {
  char b[64]; snprintf(b, sizeof b, "/sim/tmp/tmpfile%d", ++tmp_no);
  { Enter e; vfs_mkdirs("/sim/tmp"); }
  FILE* f = do_fopen(b, "w+");
  if (f) { Enter e; meta(1, b, "", nullptr); }
  return f;
}
FILE* tmpfile64() { return tmpfile(); }

struct VDir { std::vector<std::string> names; size_t at; struct dirent d; };
DIR* opendir(const char* p) {
  if (!live()) return nullptr;
  point("opendir"); Enter e;
  std::string s = norm(p);
  Inode* i = find(s);
  if (!i || !i->dir) { errno = i ? ENOTDIR : ENOENT; return nullptr; }
  if (answer(S_DISK, 1, cfg.disk_open)) { count_fault(F_DISK_OPEN_FAIL); sim_eventlog("opendir %s fails", p); errno = EMFILE; return nullptr; }
  VDir* d = new VDir; d->at = 0; d->names = {".", ".."};
  for (auto it = tree().lower_bound(s + "/"); it != tree().end() && it->first.compare(0, s.size() + 1, s + "/") == 0; ++it)
    if (it->first.find('/', s.size() + 1) == std::string::npos) d->names.push_back(it->first.substr(s.size() + 1));
  return (DIR*)d;
}
struct dirent* readdir(DIR* x) {
  VDir* d = (VDir*)x;
  if (d->at >= d->names.size()) return nullptr;
  memset(&d->d, 0, sizeof d->d);
  strncpy(d->d.d_name, d->names[d->at++].c_str(), sizeof d->d.d_name - 1);
  d->d.d_ino = d->at;
  return &d->d;
}
struct dirent64* readdir64(DIR* x) { return (struct dirent64*)readdir(x); }
int closedir(DIR* x) { Enter e; delete (VDir*)x; return 0; }

static std::map<void*, size_t>& maps() { static auto* m = new std::map<void*, size_t>; return *m; }
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) {
  if (fd < VBASE) return (void*)RAW(SYS_mmap, a, n, prot, fl, fd, o);
  Enter e;
  VFd* v = get(fd);
  if (!v || !v->ino) { errno = EBADF; return MAP_FAILED; }
  if (answer(S_DISK, 1, cfg.disk_eio_r)) { count_fault(F_DISK_EIO_READ); errno = ENOMEM; return MAP_FAILED; }
  char* m = (char*)memalign(4096, n ? n : 1);
  memset(m, 0, n);
  if (o < (long long)v->ino->data.size()) memcpy(m, v->ino->data.data() + o, std::min(n, v->ino->data.size() - (size_t)o));
  maps()[m] = n;
  return m;
}
void* mmap64(void* a, size_t n, int prot, int fl, int fd, off64_t o) { return mmap(a, n, prot, fl, fd, o); }
int munmap(void* p, size_t n) {
  if (live()) { Enter e; auto it = maps().find(p); if (it != maps().end()) { maps().erase(it); return 0; } }
  return RAW(SYS_munmap, p, n);
}
}
