#include "tools.h"
#include <string.h>
namespace sim {
static void put(std::string& o, const std::string& s) { u64 n = s.size(); o.append((char*)&n, 8); o += s; }
static std::string get(const char*& p) { u64 n; memcpy(&n, p, 8); std::string s(p + 8, n); p += 8 + n; return s; }
std::string tool_text(const Tool& t) { std::string s = t.name; for (auto& a : t.args) s += " " + a; return s; }
static std::vector<std::vector<char>>* store;
ToolEnd run_tool(const Tool& t, const std::string& image, bool calm, long long crash) {
  static const Tool* T; static const std::string* I; static bool C; static long long K;
  T = &t; I = &image; C = calm; K = crash;
  int r = run_phase([] {
    if (C) { g_muted = true; cfg.over_ok = 1; cfg.max_access = 150000000ull; }
    { Karena k; vfs_restore(*I); }
    cfg.crash_at = K < 0 ? -1 : (long long)vfs_ops() + K; cfg.crash_power = 0;
    int pid = new_proc(T->name);
    {
      Karena k;
      proc(pid).in = T->in;
      store = new std::vector<std::vector<char>>;
      auto arg = [](const std::string& s) { store->push_back(std::vector<char>(s.begin(), s.end())); store->back().push_back(0); };
      arg(T->name); for (auto& a : T->args) arg(a);
    }
    g_abort_ends = true;
    Fiber* f = spawn("main", pid, [pid] {
      char** av; { Karena k; av = new char*[store->size() + 1]; for (size_t i = 0; i < store->size(); ++i) av[i] = (*store)[i].data(); av[store->size()] = nullptr; }
      int r = sim_run_main(T->name.c_str(), store->size(), av);
      vfs_exit_flush();
      proc_exit(pid, r & 255);
    });
    if (!join_all({f})) violation("hang", tool_text(*T) + " does not end\n" + describe_blocked());
    g_abort_ends = false;
    Karena k;
    std::string o; int code = proc(pid).code;
    o.append((char*)&code, 4);
    put(o, proc(pid).out); put(o, proc(pid).err); put(o, vfs_image());
    auto l = vfs_list("/sim/w/"); u64 n = l.size(); o.append((char*)&n, 8);
    for (auto& f : l) { std::string d; vfs_get(f, d); put(o, f); put(o, d); }
    if (o.size() > BLOB_MAX) harness_error("blob too large");
    memcpy(shm->blob, o.data(), o.size()); shm->blob_len = o.size();
  });
  Karena k;
  ToolEnd e;
  if (r == PHASE_ABORTED) { e.how = T_ABORT; e.code = 134; return e; }
  if (r == PHASE_CRASHED) { e.how = T_CRASH; e.image.assign(shm->blob, shm->blob_len); return e; }
  if (r != PHASE_DONE) harness_error("tools: unexpected end of a phase");
  const char* p = shm->blob;
  memcpy(&e.code, p, 4); p += 4;
  e.out = get(p); e.err = get(p); e.image = get(p);
  u64 n; memcpy(&n, p, 8); p += 8;
  while (n--) { std::string f = get(p); e.files[f] = get(p); }
  return e;
}
}
