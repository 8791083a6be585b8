// Orchestrates simulated runs: one forked child per run, minimisation, replay.
#include "kernel.h"
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
using namespace sim;

namespace sim {
static std::vector<World>& worlds() { static auto* v = new std::vector<World>; return *v; }
void register_world(const World& w) { Karena k; worlds().push_back(w); }
const World* find_world(const std::string& n) { for (auto& w : worlds()) if (n == w.name) return &w; return nullptr; }

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c <= ' ' || c == '%' || c > 126) { char b[8]; snprintf(b, sizeof b, "%%%02x", c); o += b; }
    else o += c;
  }
  return o.empty() ? "-" : o == "-" ? "%2d" : o;
}
static std::string unesc(const std::string& s) {
  if (s == "-") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += s[i];
  return o;
}
std::string plan_text(const Plan& p) {
  std::string s = "world " + p.world + "\nseed " + std::to_string(p.seed) + "\n";
  for (auto& kv : p.par) s += "par " + kv.first + " " + std::to_string(kv.second) + "\n";
  Cfg def;
  for (const FieldDef* f = cfg_fields; f->name; ++f) if (f->get(p.cfg) != f->get(def)) s += std::string("cfg ") + f->name + " " + std::to_string(f->get(p.cfg)) + "\n";
  for (auto& o : p.ops)
    s += "op " + std::to_string(o.actor) + " " + std::to_string(o.code) + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + std::to_string(o.c) + " " + esc(o.s) + " " + esc(o.t) + "\n";
  for (auto& d : p.dec) s += std::string("dec ") + stream_name[d.stream] + " " + std::to_string(d.idx) + " " + std::to_string(d.val) + "\n";
  return s;
}
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v; size_t i = 0;
  while (i <= s.size()) { size_t j = s.find(c, i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; }
  return v;
}
bool plan_parse(const std::string& t, Plan& p) {
  for (auto& line : split(t, '\n')) {
    auto w = split(line, ' ');
    if (w[0] == "world") p.world = w[1];
    else if (w[0] == "seed") p.seed = strtoull(w[1].c_str(), 0, 10);
    else if (w[0] == "par") p.par[w[1]] = atoll(w[2].c_str());
    else if (w[0] == "cfg") { for (const FieldDef* f = cfg_fields; f->name; ++f) if (w[1] == f->name) f->set(p.cfg, atoll(w[2].c_str())); }
    else if (w[0] == "op" && w.size() >= 8) { Op o; o.actor = atoi(w[1].c_str()); o.code = atoi(w[2].c_str()); o.a = atoll(w[3].c_str()); o.b = atoll(w[4].c_str()); o.c = atoi(w[5].c_str()); o.s = unesc(w[6]); o.t = unesc(w[7]); p.ops.push_back(o); }
    else if (w[0] == "dec") { for (int i = 0; i < N_STREAMS; ++i) if (w[1] == stream_name[i]) p.dec.push_back(Decision{i, strtoull(w[2].c_str(), 0, 10), atoi(w[3].c_str())}); }
  }
  return find_world(p.world);
}
}  // namespace sim

static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void out(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { long r = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } }

// status: as Shared, 4 out of time, 5 died
static int wall_limit = 60;
static int run_child(const Plan& p) {
  const World* w = find_world(p.world);
  memset(shm, 0, offsetof(Shared, dec));
  shm->n_states = 0; shm->blob_len = 0;
  pid_t ppid = syscall(SYS_getpid);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if ((pid_t)syscall(SYS_getppid) != ppid) _exit(95);
    struct itimerval it = {{0, 0}, {wall_limit, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    { Karena k; begin_run(p); streams_take(); }
    w->run(*plan);
    _exit(94);
  }
  int st = 0;
  while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
  if (shm->status) return shm->status;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 4;
  char b[100]; snprintf(b, sizeof b, "run ended without a verdict (wait status %x)", st);
  snprintf(shm->cls, sizeof shm->cls, "harness"); snprintf(shm->text, sizeof shm->text, "%s", b);
  return 5;
}
static std::vector<Decision> recorded() { return std::vector<Decision>(shm->dec, shm->dec + shm->n_dec); }

static std::string dirname_out;
static int n_viol;
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static Plan minimise(Plan p, const std::string& cls, double budget) {
  double end = now() + budget;
  auto bad = [&](const Plan& q) { if (now() > end) return false; return run_child(q) == 2 && cls == shm->cls; };
  // the decisions in one step, then in halves
  auto reduce = [&](auto& vec, auto with) {
    size_t n = 2;
    typedef typename std::remove_reference<decltype(vec)>::type V;
    { V none; if (!vec.empty() && bad(with(none))) { vec.clear(); return; } }
    while (vec.size() >= 2 && now() < end) {
      size_t chunk = std::max<size_t>(1, vec.size() / n);
      bool did = false;
      for (size_t i = 0; i < vec.size() && now() < end;) {
        V c(vec.begin(), vec.begin() + i);
        c.insert(c.end(), vec.begin() + std::min(vec.size(), i + chunk), vec.end());
        if (c.size() < vec.size() && bad(with(c))) { vec = c; did = true; } else i += chunk;
      }
      if (chunk == 1 && !did) break;
      if (!did) n = std::min(n * 2, vec.size());
    }
  };
  for (int round = 0; round < 2; ++round) {
    reduce(p.dec, [&](const std::vector<Decision>& d) { Plan q = p; q.dec = d; return q; });
    reduce(p.ops, [&](const std::vector<Op>& o) { Plan q = p; q.ops = o; return q; });
  }
  return p;
}

static std::string describe(const Plan& p) {
  return "{\"world\":" + jstr(p.world) + ",\"seed\":" + std::to_string(p.seed) + ",\"ops\":" + std::to_string(p.ops.size()) + ",\"decisions\":" + std::to_string(p.dec.size()) +
         ",\"class\":" + jstr(shm->cls) + ",\"text\":" + jstr(shm->text) + ",\"hash\":\"" + std::to_string(shm->event_hash) + "\"}";
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NO_ASLR_TRIED")) {
    setenv("SIM_NO_ASLR_TRIED", "1", 1);
    int old = personality(0xffffffff);
    if (old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  kernel_init();
  ++g_karena;
  streams_init();
  shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, std::string> opt;
  for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  std::string mode = argc > 1 ? argv[1] : "";
  for (auto& w : worlds()) if (w.load) w.load();
  if (opt.count("--wall")) wall_limit = atoi(opt["--wall"].c_str());

  if (mode == "replay") {
    Plan p; std::string text; char buf[65536]; long n;
    int fd = syscall(SYS_open, opt["--file"].c_str(), O_RDONLY);
    if (fd < 0) { out(2, "cannot open replay file\n"); return 2; }
    while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) text.append(buf, n);
    syscall(SYS_close, fd);
    if (!plan_parse(text, p)) { out(2, "bad replay file\n"); return 2; }
    p.replay = true;
    if (opt.count("--verbose")) { g_verbose = true; syscall(SYS_dup2, 2, 3); }
    int st = run_child(p);
    out(1, "{\"status\":" + std::to_string(st) + ",\"info\":" + describe(p) + "}\n");
    return st == 2 ? 1 : 0;
  }
  if (mode == "one") {      // run a single seed verbosely
    const World* w = find_world(opt["--world"]);
    if (!w) { out(2, "no such world\n"); return 2; }
    Plan p; p.world = w->name; p.seed = strtoull(opt["--seed"].c_str(), 0, 10);
    w->generate(p.seed, atoi(opt["--variant"].c_str()), p);
    if (opt.count("--verbose")) { g_verbose = true; syscall(SYS_dup2, 2, 3); }
    if (opt.count("--plan")) out(1, plan_text(p));
    double t = now();
    int st = run_child(p);
    char b[600];
    snprintf(b, sizeof b, "status %d cls %s hash %llx sched %llx acc %llu sync %llu sw %llu dec %u sim_us %llu fibers %llu ops %llu wall %.3f\n", st, shm->cls, (unsigned long long)shm->event_hash, (unsigned long long)shm->sched_hash, (unsigned long long)shm->accesses,
             (unsigned long long)shm->syncs, (unsigned long long)shm->switches, shm->n_dec, (unsigned long long)shm->sim_us, (unsigned long long)shm->fibers, (unsigned long long)shm->ops_done, now() - t);
    out(1, b); out(1, std::string(shm->text) + "\n");
    for (int i = 0; i < N_FAULTS; ++i) if (shm->faults[i]) { snprintf(b, sizeof b, "  fault %s %llu\n", fault_name[i], (unsigned long long)shm->faults[i]); out(1, b); }
    for (int i = 0; i < N_PROBES; ++i) if (shm->probes[i]) { snprintf(b, sizeof b, "  probe %s %llu\n", probe_names[i], (unsigned long long)shm->probes[i]); out(1, b); }
    return 0;
  }
  if (mode != "run") { out(2, "usage: sim run|one|replay\n"); return 2; }

  std::vector<const World*> ws; std::vector<int> variants;
  for (auto& s : split(opt["--world"], ',')) {      // world:variant list
    auto c = split(s, ':');
    const World* w = find_world(c[0]);
    if (!w) { out(2, "no such world " + s + "\n"); return 2; }
    ws.push_back(w); variants.push_back(c.size() > 1 ? atoi(c[1].c_str()) : 0);
  }
  u64 seed = strtoull(opt["--start"].c_str(), 0, 10), stride = strtoull(opt["--stride"].c_str(), 0, 10);
  u64 max_runs = opt.count("--count") ? strtoull(opt["--count"].c_str(), 0, 10) : ~0ull;
  double budget = atof(opt["--time"].c_str()), t0 = now();
  dirname_out = opt["--out"];
  int max_viol = opt.count("--max-viol") ? atoi(opt["--max-viol"].c_str()) : 1;
  int recheck = opt.count("--recheck") ? atoi(opt["--recheck"].c_str()) : 20;
  u64 runs = 0, timeouts = 0, harness = 0, rechecked = 0, mismatches = 0, faults[N_FAULTS] = {0}, probes[N_PROBES] = {0}, asked[N_STREAMS] = {0};
  u64 accesses = 0, syncs = 0, switches = 0, sim_us = 0, ops = 0, fibers = 0, nontrivial = 0;
  std::set<u64> scheds, states;
  std::map<std::string, u64> per_world;
  std::string viols, notes;
  std::string samples; int n_samples = 0;
  while (now() - t0 < budget && runs < max_runs && n_viol < max_viol) {
    size_t wi = runs % ws.size();
    Plan p; p.world = ws[wi]->name; p.seed = seed;
    ws[wi]->generate(seed, variants[wi], p);
    seed += stride;
    int st = run_child(p);
    ++runs; ++per_world[p.world + ":" + std::to_string(variants[wi])];
    u64 h = shm->event_hash;
    for (int i = 0; i < N_FAULTS; ++i) faults[i] += shm->faults[i];
    for (int i = 0; i < N_PROBES; ++i) probes[i] += shm->probes[i];
    for (int i = 0; i < N_STREAMS; ++i) asked[i] += shm->asked[i];
    accesses += shm->accesses; syncs += shm->syncs; switches += shm->switches; sim_us += shm->sim_us; ops += shm->ops_done; fibers += shm->fibers;
    if (shm->n_dec || shm->ops_done > 1) ++nontrivial;
    if (scheds.size() < 200000) scheds.insert(shm->sched_hash ^ h);
    for (u32 i = 0; i < shm->n_states && states.size() < 200000; ++i) states.insert(shm->states[i]);
    if (n_samples < 4 && st == 1) {
      ++n_samples;
      samples += std::string(samples.empty() ? "" : ",") + "{\"world\":" + jstr(p.world) + ",\"seed\":" + std::to_string(p.seed) + ",\"ops\":" + std::to_string(p.ops.size()) + ",\"scheduling_and_fault_decisions\":" + std::to_string(shm->n_dec) +
                 ",\"memory_accesses\":" + std::to_string(shm->accesses) + ",\"sync_and_system_calls\":" + std::to_string(shm->syncs) + ",\"event_hash\":\"" + std::to_string(h) + "\"}";
    }
    if (st == 3 || st == 5) { ++harness; if (notes.size() < 20000) notes += std::string(notes.empty() ? "" : ",") + jstr("seed " + std::to_string(p.seed) + " world " + p.world + ": " + std::string(shm->text).substr(0, 1500)); continue; }
    if (st == 4) { ++timeouts; if (notes.size() < 20000) notes += std::string(notes.empty() ? "" : ",") + jstr("seed " + std::to_string(p.seed) + " world " + p.world + ": wall-clock limit"); continue; }
    if (st == 1 && recheck && runs % recheck == 0) {
      // the same seed again, and the same run from its recorded decisions
      std::vector<Decision> d = recorded();
      bool full = shm->n_dec >= MAX_DEC;
      int s2 = run_child(p);
      bool ok = s2 == st && shm->event_hash == h;
      if (ok && !full) { Plan q = p; q.replay = true; q.dec = d; s2 = run_child(q); ok = s2 == st && shm->event_hash == h; }
      ++rechecked;
      if (!ok) { ++mismatches; notes += std::string(notes.empty() ? "" : ",") + jstr("seed " + std::to_string(p.seed) + " world " + p.world + ": not repeatable"); }
    }
    if (st == 2) {
      std::string cls = shm->cls;
      std::vector<Decision> d = recorded();
      Plan q = p; q.replay = true; q.dec = d;
      int s2 = run_child(q);
      if (s2 != 2 || cls != shm->cls) {
        ++mismatches;
        notes += std::string(notes.empty() ? "" : ",") + jstr("seed " + std::to_string(p.seed) + " world " + p.world + ": violation " + cls + " did not recur (" + std::to_string(s2) + " " + shm->cls + ")");
        continue;
      }
      Plan m = minimise(q, cls, opt.count("--min-time") ? atof(opt["--min-time"].c_str()) : 40);
      int a = run_child(m); u64 h1 = shm->event_hash;
      int b = run_child(m);
      if (a != 2 || b != 2 || h1 != shm->event_hash || cls != shm->cls) { ++mismatches; notes += std::string(notes.empty() ? "" : ",") + jstr("seed " + std::to_string(p.seed) + ": minimised run not repeatable"); continue; }
      ++n_viol;
      std::string f = dirname_out + "." + std::to_string(n_viol) + ".replay";
      int fd = syscall(SYS_open, f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      out(fd, plan_text(m) + "class " + cls + "\nhash " + std::to_string(shm->event_hash) + "\nfull_ops " + std::to_string(p.ops.size()) + " full_decisions " + std::to_string(d.size()) + "\n");
      syscall(SYS_close, fd);
      viols += std::string(viols.empty() ? "" : ",") + "{\"replay\":" + jstr(f) + ",\"info\":" + describe(m) + "}";
    }
  }
  std::string j = "{\"runs\":" + std::to_string(runs) + ",\"wall\":" + std::to_string(now() - t0) + ",\"timeouts\":" + std::to_string(timeouts) + ",\"harness\":" + std::to_string(harness) + ",\"rechecked\":" + std::to_string(rechecked) +
                  ",\"mismatches\":" + std::to_string(mismatches) + ",\"accesses\":" + std::to_string(accesses) + ",\"syncs\":" + std::to_string(syncs) + ",\"switches\":" + std::to_string(switches) + ",\"sim_us\":" + std::to_string(sim_us) +
                  ",\"ops\":" + std::to_string(ops) + ",\"fibers\":" + std::to_string(fibers) + ",\"nontrivial\":" + std::to_string(nontrivial) + ",\"next_seed\":" + std::to_string(seed) + ",\"faults\":{";
  bool first = true;
  for (int i = 0; i < N_FAULTS; ++i) if (faults[i]) { j += std::string(first ? "" : ",") + "\"" + fault_name[i] + "\":" + std::to_string(faults[i]); first = false; }
  j += "},\"probes\":{"; first = true;
  for (int i = 0; i < N_PROBES; ++i) if (probe_names[i]) { j += std::string(first ? "" : ",") + jstr(probe_names[i]) + ":" + std::to_string(probes[i]); first = false; }
  j += "},\"asked\":{"; first = true;
  for (int i = 0; i < N_STREAMS; ++i) { j += std::string(first ? "" : ",") + "\"" + stream_name[i] + "\":" + std::to_string(asked[i]); first = false; }
  j += "},\"per_world\":{"; first = true;
  for (auto& kv : per_world) { j += std::string(first ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); first = false; }
  auto list = [](const std::set<u64>& s) { std::string o = "["; bool f = true; for (u64 v : s) { o += std::string(f ? "" : ",") + std::to_string(v % 1000000007ull * 1000 + v % 997); f = false; } return o + "]"; };
  j += "},\"violations\":[" + viols + "],\"notes\":[" + notes + "],\"samples\":[" + samples + "],\"scheds\":" + list(scheds) + ",\"states\":" + list(states) + "}\n";
  int fd = syscall(SYS_open, (dirname_out + ".json").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  out(fd, j); syscall(SYS_close, fd);
  _exit(n_viol ? 1 : 0);
}
