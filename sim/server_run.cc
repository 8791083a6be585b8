#include <math.h>
#include "server_run.h"
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include <algorithm>
namespace sim {
static u64 g_clock;
static int p_lin_fork = probe_id("linearization-fork"), p_lin_in = probe_id("linearization-search-budget-exhausted"), p_lin_ok = probe_id("history-with-overlapping-requests-explained");
static int p_pend = probe_id("pending-request-in-history"), p_overlap = probe_id("requests-overlapped"), p_train_overlap = probe_id("training-overlapped-another-request");
static int p_after_end = probe_id("request-in-progress-at-shutdown");
static int p_pairs = probe_id("trained-pairs-found-in-the-saved-model");
static int g_end_seen;

std::string printable(const std::string& s) {
  std::string o;
  for (unsigned char c : s.substr(0, 300)) if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
  if (s.size() > 300) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}
static void put(std::string& o, const std::string& s) { u64 n = s.size(); o.append((char*)&n, 8); o += s; }
static std::string get(const std::string& d, size_t& i) { u64 n; memcpy(&n, d.data() + i, 8); i += 8; std::string s = d.substr(i, n); i += n; return s; }
std::string ser(const std::vector<Rec>& v) {
  std::string o;
  u64 n = v.size(); o.append((char*)&n, 8);
  for (auto& r : v) { u64 h[5] = {r.inv, r.conn, r.ret, (u64)r.status, (u64)r.stopped}; o.append((char*)h, sizeof h); put(o, r.reply); put(o, r.files); }
  return o;
}
std::vector<Rec> deser(const std::string& d) {
  std::vector<Rec> v; size_t i = 8; u64 n; memcpy(&n, d.data(), 8);
  for (u64 k = 0; k < n; ++k) {
    Rec r; u64 h[5]; memcpy(h, d.data() + i, sizeof h); i += sizeof h;
    r.inv = h[0]; r.conn = h[1]; r.ret = h[2]; r.status = h[3]; r.stopped = h[4];
    r.reply = get(d, i); r.files = get(d, i);
    v.push_back(r);
  }
  return v;
}
static const char* code_name(int c) {
  static const char* n[] = {"?", "VERIFY_COV", "TRANSLATE", "TRANSLATE_HYPINFO", "OL_TRAIN_PAIR", "TRAIN_ECM", "START_CAT", "ADD_STR_TO_PREF", "RESET_PREF", "PRINT_MODELS", "END_CLIENT_DIALOG", "END_SERVER"};
  return c >= 1 && c <= 11 ? n[c] : "unknown-request";
}
std::string op_text(const Op& o, const Rec* r) {
  std::string s = "client " + std::to_string(o.actor) + " " + code_name(o.code) + "(" + std::to_string(o.code) + ") user " + std::to_string(o.a);
  if (n_args(o.code) > 0 || (o.b & 15) == B_RAW) s += " \"" + printable(o.s) + "\"";
  if (n_args(o.code) > 1) s += " \"" + printable(o.t) + "\"";
  static const char* f[] = {"", " [closes without reading]", " [resets after sending]", " [sends part, closes]", " [sends part, resets]", " [sends part, stalls, closes]", " [reads part of the reply]", " [raw bytes]", "", " [reads late]"};
  if ((o.b & 15) == B_TOOL) s += " [thot_client]"; else s += f[std::min<long long>(o.b & 15, 9)];
  if (r) {
    static const char* st[] = {"not issued", "refused", "half sent", "no reply read", "reply", "closed without complete reply"};
    s += std::string(" -> ") + st[r->status];
    if (!r->reply.empty()) { std::vector<std::string> v; size_t rest; parse_reply(o.code, r->reply, v, rest); for (auto& x : v) s += " \"" + printable(x) + "\""; }
    s += " [" + std::to_string(r->inv) + "," + (r->ret == ~0ull ? "-" : std::to_string(r->ret)) + "]";
  }
  return s;
}
bool pure_op(int c) { return c == RQ_VERIFY || c == RQ_TRANS || c == RQ_TRANS_INFO || c == RQ_BYE || c == RQ_END; }
bool losses_possible() { return cfg.net_reset; }

// sends the first n bytes with the segmentation the operation asks for; false if the peer is gone
static bool send_seg(int fd, const std::string& m, int mode) {
  Rng r(mode);
  size_t o = 0;
  while (o < m.size()) {
    size_t k = m.size() - o;
    switch (mode & 7) {
      case 1: case 2: k = o < 8 ? std::min<size_t>(k, 4) : k; break;       // header fields apart
      case 3: k = 1; break;
      case 4: k = std::min<size_t>(k, 1 + r.below(9)); break;
      case 5: k = std::min<size_t>(k, 1 + r.below(400)); break;
    }
    size_t d = 0;
    while (d < k) {
      long w = net_send(fd, m.data() + o + d, k - d);
      if (w < 0 && errno == EINTR) continue;
      if (w <= 0) return false;
      d += w;
    }
    o += k;
    if (o < m.size() && (mode & 7) >= 2 && r.permille(mode & 8 ? 500 : 100)) sleep_us(1 + r.below(3000));
  }
  return true;
}
// reads up to n bytes
static int recv_to(int fd, std::string& s, size_t n) {
  char b[4096];
  while (s.size() < n) {
    long r = net_recv(fd, b, std::min(sizeof b, n - s.size()));
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) return -1;
    if (r == 0) return 0;
    s.append(b, r);
  }
  return 1;
}
// the request made by the real thot_client, in a process of its own
enum { TOOL_INFO = 1, TOOL_VERBOSE = 2, TOOL_JSON = 4 };
static int p_tool_ok = probe_id("client-program-reported-success"), p_tool_fail = probe_id("client-program-reported-failure");
static void exec_tool(const Op& op, Rec& r) {
  int flags = op.b >> 4;
  if (op.c >= 64) sleep_us(1 + (op.c >> 6) * 37 % 4000);
  r.inv = ++g_clock;
  r.stopped = g_end_seen;
  static int n_json;
  std::vector<std::string> a = {"thot_client", "-i", "127.0.0.1", "-uid", std::to_string(op.a)};
  if (flags & TOOL_VERBOSE) a.push_back("-v");
  switch (op.code) {
    case RQ_TRANS:
      if (flags & TOOL_INFO) { a.push_back("-th"); a.push_back(op.s); }
      else if (flags & TOOL_JSON) { std::string f = "/sim/toy/json" + std::to_string(n_json++), j = op.s + "\n"; size_t cut = j.find(' ', op.c % 7); if (op.c & 1 && cut != std::string::npos) j.insert(cut + 1, "\n"); vfs_put(f, j); a.push_back("-j"); a.push_back(f); }
      else { a.push_back("-t"); a.push_back(op.s); }
      break;
    case RQ_VERIFY: a.push_back("-c"); a.push_back(op.s); a.push_back(op.t); break;
    case RQ_TRAIN: a.push_back("-tr"); a.push_back(op.s); a.push_back(op.t); break;
    case RQ_CAT: a.push_back("-sc"); a.push_back(op.s); break;
    case RQ_ADD: a.push_back("-ap"); a.push_back(op.s); break;
    case RQ_RESET: a.push_back("-rp"); break;
    case RQ_PRINT: a.push_back("-pr"); break;
    case RQ_END: a.push_back("-e"); g_end_seen = 1; break;
    default: harness_error("thot_client cannot make this request");
  }
  int pid = new_proc("thot_client");
  r.conn = r.inv; r.ret = ~0ull;
  spawn("thot_client", pid, [a, pid] {
    char** av; { Karena k; av = new char*[a.size() + 1]; for (size_t i = 0; i < a.size(); ++i) { av[i] = new char[a[i].size() + 1]; memcpy(av[i], a[i].c_str(), a[i].size() + 1); } av[a.size()] = nullptr; }
    int c = sim_run_main("thot_client", a.size(), av);
    proc_exit(pid, c & 255);
  });
  block_until([pid] { return proc_ended(pid); }, "thot_client ends");
  if (!proc_ended(pid)) violation("hang", "the client program does not end: " + op_text(op) + "\n" + describe_blocked());
  u64 now = ++g_clock;
  if (op.code == RQ_PRINT) r.files = model_files();
  const ProcState& ps = proc(pid);
  std::string out = ps.out;
  if (ps.code) {
    probe(p_tool_fail);
    sim_eventlog("client program failed (%d): %s: %s", ps.code, op_text(op).c_str(), ps.err.c_str());
    // the server says no to a pair without words; any other failure leaves open what happened
    auto c = plan->par.find("cfg");
    if (op.code == RQ_TRAIN && ((c != plan->par.end() && c->second == 2) || toks(op.s).empty() || toks(op.t).empty())
        || op.code == RQ_PRINT && plan->par.count("disk")) { r.status = ST_OK; r.reply = wire_int(1); r.ret = now; }
    else r.status = ST_PENDING;
    return;
  }
  probe(p_tool_ok);
  // only the server can tell that the request was executed
  if (!ps.received) violation("client-success", "the client program ends with success and has received nothing from the server: " + op_text(op));
  r.ret = now; r.status = ST_OK;
  int n = n_strings(op.code);
  if (n == -1) {
    if (!out.empty()) violation("client-output", "the client program prints something for a request without text: " + op_text(op) + ": " + printable(out));
    r.reply = wire_int(0);
  } else {
    if (out.empty() || out.back() != '\n') violation("client-output", "the client program ends with success and its output is incomplete: " + op_text(op) + ": \"" + printable(out) + "\"");
    out.pop_back();
    std::string info;
    if (flags & TOOL_INFO && op.code == RQ_TRANS) {
      size_t i = out.rfind('\n');
      if (i == std::string::npos) violation("client-output", "the client program prints no hypothesis information: " + op_text(op) + ": \"" + printable(out) + "\"");
      info = out.substr(0, i); out = out.substr(i + 1);
    }
    r.reply = wire_str(out);
    if (n == 2) r.reply += wire_str(info);
  }
  if (!g_muted) { ++shm->ops_done; add_hash(r.reply); }
  sim_eventlog("done: %s", op_text(op, &r).c_str());
}
// what the client program printed is what the server replied
static bool tool_reply_same(const Op& op, const std::string& printed, const std::string& server) {
  std::vector<std::string> a, b; size_t rest;
  if (parse_reply(op.code, printed, a, rest) != 1 || parse_reply(op.code, server, b, rest) != 1) return false;
  if (n_strings(op.code) == -1) return (op.code != RQ_TRAIN && op.code != RQ_PRINT) || (a[0] == "1") == (b[0] == "1");
  if (a[0] != b[0]) return false;
  return a.size() < 2 || !(op.b >> 4 & TOOL_INFO) || a[1] == b[1];
}
void exec_op(const Op& op, Rec& r) {
  if ((op.b & 15) == B_TOOL) { exec_tool(op, r); return; }
  int kind = op.b & 15, n = op.b >> 4;
  if (op.c >= 64) sleep_us(1 + (op.c >> 6) * 37 % 4000);
  r.inv = ++g_clock;
  u64 start_us = now_us();
  r.stopped = g_end_seen;
  int fd = net_connect(4550);
  r.conn = ++g_clock;
  r.ret = ~0ull;
  if (fd < 0) { r.status = ST_REFUSED; r.ret = r.conn; return; }
  if (op.code == RQ_END && kind == B_NONE) g_end_seen = 1;
  sim_eventlog("connected: %s", op_text(op).c_str());
  std::string m = kind == B_RAW ? op.s : encode(op.code, op.a, op.s, op.t);
  size_t len = m.size();
  if (kind == B_CUT || kind == B_CUT_RST || kind == B_CUT_STALL) {
    len = kind == B_CUT_STALL && len > 8 ? 8 + n % (len - 8) : n % std::max<size_t>(1, len);
    count_fault(kind == B_CUT_STALL ? F_CLIENT_STALL : F_CLIENT_VANISH);
  }
  if (kind == B_SILENT) { len = n % 8; count_fault(F_CLIENT_STALL); }
  if (kind == B_RAW) count_fault(F_CLIENT_GARBAGE);
  bool sent = send_seg(fd, m.substr(0, len), op.c & 63);
  bool full = sent && len == m.size();
  r.status = full || kind == B_RAW ? ST_PENDING : ST_HALF;
  if (!sent && len == m.size()) r.status = ST_PENDING;
  switch (kind) {
    case B_CUT: net_close(fd); return;
    case B_CUT_RST: net_close(fd, true); return;
    case B_SILENT: sleep_us(1000000000); net_close(fd); return;
    case B_CUT_STALL: sleep_us(1000 + n % 7 * 400000); net_close(fd); return;
    case B_CLOSE: count_fault(F_CLIENT_VANISH); net_close(fd); return;
    case B_RST: count_fault(F_CLIENT_VANISH); if (n & 1) sleep_us(n % 5000); net_close(fd, true); return;
    case B_PARTREAD: {
      count_fault(F_CLIENT_VANISH);
      recv_to(fd, r.reply, 1 + n % 24);
      net_close(fd, n & 32);
      r.reply.clear();
      return;
    }
    case B_RAW: {       // half-close is not available to the client: wait a little, then leave
      sleep_us(1 + n % 3000);
      net_close(fd, n & 1);
      return;
    }
    case B_SLOWREAD: count_fault(F_CLIENT_STALL); sleep_us(1000 + n % 11 * 300000); break;
  }
  // the server closes the connection after its reply
  int e = recv_to(fd, r.reply, 64 << 20);
  if (op.code == RQ_PRINT) r.files = model_files();
  r.ret = ++g_clock;
  if (plan->par.count("silent") && now_us() > start_us + 900000000ull) violation("starved", "a client that connected and sent nothing delayed another one until it went away: " + op_text(op, &r));
  if (op.code == RQ_PRINT && g_verbose) sim_eventlog("SAVED\n%s", r.files.c_str());
  if (op.code == RQ_PRINT && g_verbose) for (auto f : {"_swm.src", "_swm.trg", "_swm.srctrgc", "_invswm.src", "_swm.msinfo"}) { std::string d; vfs_get(std::string("/sim/toy/tm/main/src_trg") + f, d); sim_eventlog("FILE %s: %s", f, d.c_str()); }
  net_close(fd);
  std::vector<std::string> v; size_t rest;
  int ok = parse_reply(op.code, r.reply, v, rest);
  r.status = ok == 1 ? ST_OK : ST_CLOSED;
  if (op.code >= 1 && op.code <= 11) {
    if (ok == 1 && rest) violation("malformed-reply", std::to_string(rest) + " bytes follow the complete reply: " + op_text(op, &r) + "\n  bytes: " + printable(r.reply));
    if (ok < 0) violation("malformed-reply", "negative string length in the reply: " + op_text(op, &r));
  }
  (void)e;
  if (op.actor == FINAL_ACTOR && op.code == RQ_PRINT && ok == 1 && g_image_at_save) { Karena k; *g_image_at_save = vfs_image(); g_image_at_save = nullptr; }
  if (r.status == ST_OK && !g_muted) { ++shm->ops_done; add_hash(r.reply); }
  sim_eventlog("done: %s", op_text(op, &r).c_str());
}
std::string* g_image_at_save = nullptr;
std::string tail_of(int sp) { const std::string& e = proc(sp).err; return "  its last messages: " + e.substr(e.size() > 500 ? e.size() - 500 : 0) + "\n"; }
static std::string history_text(const std::vector<Op>& ops, const std::vector<Rec>& rec) {
  std::string s;
  for (size_t i = 0; i < ops.size(); ++i) s += "  " + op_text(ops[i], &rec[i]) + "\n";
  return s;
}
static void quiesce(int sp, const std::vector<Op>& ops, std::vector<Rec>& rec, const char* when) {
  block_until([sp] { return live_fibers(sp) <= 1 || proc_ended(sp); }, "the server becomes idle");
  if (live_fibers(sp) > 1 && !proc_ended(sp)) violation("stuck-request", std::string("request threads that never finish ") + when + "\n" + describe_blocked() + history_text(ops, rec));
  if (!proc_ended(sp)) {
    // connections still queued belong to clients that left
    block_until([sp] { return open_sockets(sp) <= 1 || proc_ended(sp); }, "the server closes its connections");
    if (open_sockets(sp) > 1 && !proc_ended(sp)) violation("leaked-connection", std::to_string(open_sockets(sp) - 1) + " connections stay open in the idle server " + when + "\n" + history_text(ops, rec));
  }
  u64 t = ++g_clock;
  for (auto& r : rec) if (r.status == ST_PENDING && r.ret == ~0ull) r.ret = t;
}
void run_history(const std::vector<Op>& ops, std::vector<Rec>& rec, int sp, const RunOpts& o) {
  rec.assign(ops.size(), Rec());
  g_clock = 0; g_end_seen = 0;
  int files0 = open_files(sp);
  std::map<int, std::vector<int>> by;
  for (size_t i = 0; i < ops.size(); ++i) by[ops[i].actor].push_back(i);
  std::vector<Fiber*> v;
  for (auto& kv : by) {
    if (kv.first == FINAL_ACTOR) continue;
    auto& mine = kv.second;
    v.push_back(spawn("client" + std::to_string(kv.first), 0, [&ops, &rec, &mine, sp] {
      for (int i : mine) { if (proc_ended(sp)) return; exec_op(ops[i], rec[i]); }
    }));
  }
  bool killed = false;
  if (o.kill_at) v.push_back(spawn("killer", 0, [&o, &killed, sp] {
    sleep_us(o.kill_at);
    if (proc_ended(sp)) return;
    count_fault(F_CRASH_PROCESS); killed = true;
    sim_eventlog("the server is killed");
    proc_exit(sp, 137);
  }));
  if (!join_all(v)) violation("hang", "clients wait for replies that never come\n" + describe_blocked() + history_text(ops, rec));
  if (killed) {
    u64 t = ++g_clock;
    for (auto& r : rec) if (r.status == ST_PENDING && r.ret == ~0ull) r.ret = t;
    return;
  }
  bool early = g_end_seen;
  if (proc_ended(sp) && !early) violation("server-died", "the server ended although nobody asked it to (" + std::string(proc(sp).killed ? "killed" : "exit code " + std::to_string(proc(sp).code)) + ")\n" + tail_of(sp) + history_text(ops, rec));
  if (!early) quiesce(sp, ops, rec, "after the clients are gone");
  std::vector<Fiber*> last;
  if (by.count(FINAL_ACTOR) && !early) {
    auto& mine = by[FINAL_ACTOR];
    last.push_back(spawn("final-client", 0, [&ops, &rec, &mine, sp] { for (int i : mine) { if (proc_ended(sp)) return; exec_op(ops[i], rec[i]); } }));
    bool muted = g_muted; g_muted = true;      // no more faults
    bool done = join_all(last);
    g_muted = muted;
    if (!done) violation("hang", "the final client waits for a reply that never comes\n" + describe_blocked() + history_text(ops, rec));
    quiesce(sp, ops, rec, "at the end");
  }
  bool end_acked = false;
  for (size_t i = 0; i < ops.size(); ++i) if (ops[i].code == RQ_END && rec[i].status == ST_OK) end_acked = true;
  if (g_end_seen && !end_acked && losses_possible() && !proc_ended(sp)) {
    block_until([sp] { return proc_ended(sp); }, "the server ends");   // the request may have been lost
    u64 t = ++g_clock;
    for (auto& r : rec) if (r.status == ST_PENDING && r.ret == ~0ull) r.ret = t;
  } else if (g_end_seen) {
    block_until([sp] { return proc_ended(sp); }, "the server ends");
    if (!proc_ended(sp)) violation("no-shutdown", "END_SERVER was sent and the server does not end\n" + describe_blocked() + history_text(ops, rec));
    if (proc(sp).killed || proc(sp).code != 0) violation("shutdown-code", "the server was asked to end and ended " + std::string(proc(sp).killed ? "killed by a signal" : "with exit code " + std::to_string(proc(sp).code)) + "\n" + history_text(ops, rec));
    u64 t = ++g_clock;
    for (auto& r : rec) if (r.status == ST_PENDING && r.ret == ~0ull) r.ret = t;
  } else {
    if (proc_ended(sp)) violation("server-died", "the server ended although nobody asked it to\n" + tail_of(sp) + history_text(ops, rec));
    if (open_files(sp) > files0 && !library_threads(sp)) violation("leaked-file", std::to_string(open_files(sp) - files0) + " files stay open in the idle server\n" + history_text(ops, rec));
  }
  // completeness: without a fault that may cost it, every request is answered
  u64 end_conn = ~0ull;
  for (size_t i = 0; i < ops.size(); ++i) if (ops[i].code == RQ_END && (ops[i].b & 15) == B_NONE && rec[i].conn) end_conn = std::min(end_conn, rec[i].inv);
  bool pend = false, over = false, tover = false;
  u64 lost = 0;
  for (size_t i = 0; i < ops.size(); ++i) {
    const Op& p = ops[i]; const Rec& r = rec[i];
    if (r.status == ST_PENDING) pend = true;
    for (size_t j = 0; j < ops.size(); ++j)
      if (i != j && rec[j].inv && r.inv && r.inv < rec[j].ret && rec[j].inv < r.ret) { over = true; if (p.code == RQ_TRAIN) tover = true; }
    int kind = p.b & 15;
    if (kind != B_NONE && kind != B_SLOWREAD && kind != B_TOOL) continue;
    if (p.code < 1 || p.code > 11) continue;
    if (r.status == ST_NONE) continue;
    // requests that connect after the one that stops the server need not be served
    if (end_conn != ~0ull && p.code != RQ_END && r.conn >= end_conn) continue;
    if (p.code == RQ_END && end_acked && r.status != ST_OK) continue;      // another one stopped it
    if (end_conn != ~0ull && r.ret > end_conn && p.code != RQ_END) probe(p_after_end);
    // each failure to accept a connection or to create a thread may cost one request its reply
    if (r.status != ST_OK && p.actor != FINAL_ACTOR && ++lost <= shm->faults[F_THREAD_EAGAIN] + shm->faults[F_ACCEPT_ERR]) continue;
    if (r.status != ST_OK && ((!o.accept_losses && !losses_possible()) || p.actor == FINAL_ACTOR)) violation("lost-reply", "a correct request did not get a complete reply: " + op_text(p, &r) + "\n" + history_text(ops, rec));
    if (r.status != ST_OK) continue;
    std::vector<std::string> v; size_t rest; parse_reply(p.code, r.reply, v, rest);
    if (p.code == RQ_PRINT && v[0] != "0" && (o.disk_ok || p.actor == FINAL_ACTOR)) violation("print-failed", "PRINT_MODELS reports an error although no disk operation failed\n" + history_text(ops, rec));
    if ((p.code == RQ_RESET || p.code == RQ_END) && v[0] != "0") violation("wrong-ack", "unexpected acknowledgement: " + op_text(p, &r) + "\n" + history_text(ops, rec));
    if (p.code == RQ_TRAIN && (v[0] == "0") != (o.can_train && !toks(p.s).empty() && !toks(p.t).empty()) && o.check_train) violation("wrong-train-ack", "unexpected outcome of a training request: " + op_text(p, &r) + "\n" + history_text(ops, rec));
  }
  if (pend) probe(p_pend);
  if (over) probe(p_overlap);
  if (tover) probe(p_train_overlap);
}

void check_once(const std::vector<Op>& ops, const std::vector<Rec>& rec, double step) {
  auto lines = [](const char* f) { std::string d, l; std::vector<std::string> v; vfs_get(std::string("/sim/toy/tm/main/src_trg") + f, d); for (char c : d) if (c == '\n') { v.push_back(l); l.clear(); } else l += c; return v; };
  auto norm = [](const std::string& s) { std::string o; for (auto& w : toks(s)) o += (o.empty() ? "" : " ") + w; return o; };
  for (int inv = 0; inv < 2; ++inv) {
    auto s = lines(inv ? "_invswm.src" : "_swm.trg"), t = lines(inv ? "_invswm.trg" : "_swm.src");
    std::map<std::string, int> got, lo, hi;
    // each pair with its weight
    auto c = lines(inv ? "_invswm.srctrgc" : "_swm.srctrgc");
    if (c.size() != s.size() || c.size() != t.size()) violation("pairs-and-weights-differ", "the saved model holds " + std::to_string(s.size()) + " and " + std::to_string(t.size()) + " sentences and " + std::to_string(c.size()) + " weights\n" + history_text(ops, rec));
    for (auto& l : c) if (fabs(atof(l.c_str()) - step) > 1e-3) violation("wrong-weight", "a trained pair was saved with weight " + printable(l) + " instead of " + std::to_string(step) + "\n" + history_text(ops, rec));
    for (size_t i = 0; i < s.size() && i < t.size(); ++i) ++got[norm(s[i]) + " ||| " + norm(t[i])];
    for (size_t i = 0; i < ops.size(); ++i) {
      if (ops[i].code != RQ_TRAIN || (ops[i].b & 15) == B_RAW) continue;
      std::string k = norm(ops[i].s) + " ||| " + norm(ops[i].t);
      if (rec[i].status == ST_OK) { std::vector<std::string> v; size_t rest; parse_reply(RQ_TRAIN, rec[i].reply, v, rest); if (v[0] == "0") { ++lo[k]; ++hi[k]; } }
      else if (rec[i].status == ST_PENDING) ++hi[k];
      else if (rec[i].status == ST_CLOSED) ++hi[k];
    }
    for (auto& kv : got) { if (!inv) for (int i = 0; i < kv.second; ++i) probe(p_pairs); if (kv.second > hi[kv.first]) violation("trained-more-than-once", "the saved model holds " + std::to_string(kv.second) + " times the pair " + printable(kv.first) + ", which was sent " + std::to_string(hi[kv.first]) + " times\n" + history_text(ops, rec)); }
    for (auto& kv : lo) if (got[kv.first] < kv.second) violation("training-lost", "the saved model holds " + std::to_string(got[kv.first]) + " times the pair " + printable(kv.first) + ", whose training was acknowledged " + std::to_string(kv.second) + " times\n" + history_text(ops, rec));
  }
}
// the n-grams of the saved language model are those it was started with and those of the acknowledged references
static int p_lm = probe_id("language-model-counts-checked");
typedef std::map<std::string, double> NgramCounts;
static NgramCounts lm_counts(const std::string& text) {
  NgramCounts m;
  std::string l;
  for (char c : text) {
    if (c != '\n') { l += c; continue; }
    auto w = toks(l); l.clear();
    if (w.size() < 3) continue;
    std::string k; for (size_t i = 0; i + 2 < w.size(); ++i) k += (i ? " " : "") + w[i];
    m[k] += atof(w.back().c_str());
  }
  return m;
}
static void lm_add(NgramCounts& m, const std::string& sentence, double c) {
  auto w = toks(sentence); w.insert(w.begin(), "<s>"); w.push_back("</s>");
  for (size_t i = 0; i < w.size(); ++i) {
    std::string k;
    for (size_t n = 0; n < 3 && n <= i; ++n) { k = k.empty() ? w[i] : w[i - n] + " " + k; m[k] += c; }
  }
}
void check_lm(const std::vector<Op>& ops, const std::vector<Rec>& rec, const std::string& before, double step) {
  std::string d; vfs_get("/sim/toy/lm/main/trg.lm", d);
  NgramCounts got = lm_counts(d), lo = lm_counts(before), hi = lo;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (ops[i].code != RQ_TRAIN || (ops[i].b & 15) == B_RAW) continue;
    if (rec[i].status == ST_OK) { std::vector<std::string> v; size_t rest; parse_reply(RQ_TRAIN, rec[i].reply, v, rest); if (v[0] == "0") { lm_add(lo, ops[i].t, step); lm_add(hi, ops[i].t, step); } }
    else if (rec[i].status == ST_PENDING || rec[i].status == ST_CLOSED) lm_add(hi, ops[i].t, step);
  }
  for (auto& kv : lo) {
    probe(p_lm);
    double g = got[kv.first], tol = 1e-3 * (1 + kv.second);
    if (g < kv.second - tol) violation("lm-training-lost", "the saved language model counts \"" + printable(kv.first) + "\" " + std::to_string(g) + " times, after at least " + std::to_string(kv.second) + " acknowledged occurrences\n" + history_text(ops, rec));
  }
  for (auto& kv : got) if (kv.second > hi[kv.first] + 1e-3 * (1 + kv.second)) violation("lm-trained-more-than-once", "the saved language model counts \"" + printable(kv.first) + "\" " + std::to_string(kv.second) + " times, which occurred " + std::to_string(hi[kv.first]) + " times\n" + history_text(ops, rec));
}
void run_alone(const std::vector<Op>& ops, std::vector<Rec>& rec, bool verbose) {
  rec.assign(ops.size(), Rec());
  int sp = start_server(verbose);
  if (proc_ended(sp)) violation("reference-start", "the reference server does not start: " + tail_of(sp));
  Fiber* f = spawn("reference", 0, [&] { for (size_t i = 0; i < ops.size(); ++i) { Op p = ops[i]; if ((p.b & 15) == B_SLOWREAD) p.b = 0; p.c = 0; if ((p.b & 15) == B_NONE) exec_op(p, rec[i]); } });
  if (!join_all({f})) violation("hang", "a sequential execution of the same requests does not finish\n" + describe_blocked());
}

// ------------------------------------------------ the sequential reference
static const std::vector<Op>* L_ops;
static const std::vector<Rec>* L_rec;
static bool L_files;
static int p_save_failed = probe_id("failed-save-reported");
static u64* fork_budget() { return (u64*)(shm->blob + BLOB_MAX - 64); }
static bool must(int i) { return (*L_rec)[i].status == ST_OK; }
// 1 if op i may come next: everything that ended before it began is done
static bool enabled(int i, const std::vector<char>& done) {
  for (size_t j = 0; j < done.size(); ++j)
    if (!done[j] && (int)j != i && must(j) && (*L_rec)[j].ret < (*L_rec)[i].inv) return false;
  return true;
}
static bool same_files(int i) {
  if (!L_files || (*L_ops)[i].code != RQ_PRINT || (*L_rec)[i].files.empty()) return true;
  // another snapshot being written at the same time makes the files a mixture
  for (size_t j = 0; j < L_ops->size(); ++j)
    if ((int)j != i && (*L_ops)[j].code == RQ_PRINT && (*L_rec)[j].inv && (*L_rec)[j].inv < (*L_rec)[i].ret && (*L_rec)[i].inv < (*L_rec)[j].ret) return true;
  return false;
}
static bool L_exec(int i) {      // executes op i on the reference; does the recorded outcome match?
  Op p = (*L_ops)[i]; p.b = 0; p.c = 0;
  Rec r; exec_op(p, r);
  if (!must(i)) return true;
  const Op& o = (*L_ops)[i];
  if (r.status != ST_OK || !((o.b & 15) == B_TOOL ? tool_reply_same(o, (*L_rec)[i].reply, r.reply) : r.reply == (*L_rec)[i].reply)) {
    if (g_verbose) sim_eventlog("not explained: #%d\n  received %s\n  here     %s\n", i, printable((*L_rec)[i].reply).c_str(), printable(r.reply).c_str());
    return false;
  }
  if (!same_files(i) && r.files != (*L_rec)[i].files) return false;
  return true;
}
static std::string L_best; static size_t L_best_n;
static bool cat_op(int c) { return c == RQ_CAT || c == RQ_ADD || c == RQ_RESET; }
static bool independent(int i, int j) {       // of each other's outcome and effect
  const Op &a = (*L_ops)[i], &b = (*L_ops)[j];
  if (cat_op(a.code) && cat_op(b.code)) return a.a != b.a;
  if (cat_op(a.code)) return b.code == RQ_PRINT;
  if (cat_op(b.code)) return a.code == RQ_PRINT;
  return false;
}
// sleep: operations whose exploration here would only repeat an order already refuted
static int dfs(std::vector<char> done, size_t n_done, std::string trail, std::vector<char> sleep) {
  for (;;) {
    bool all = true;
    for (size_t i = 0; i < done.size(); ++i) if (!done[i] && must(i)) all = false;
    if (all) return 0;
    // read-only requests that match now are taken now
    bool took = false;
    std::vector<int> cand;
    for (size_t i = 0; i < done.size(); ++i) {
      if (done[i] || !enabled(i, done)) continue;
      if (pure_op((*L_ops)[i].code)) {
        if (must(i) && L_exec(i)) { done[i] = 1; took = true; ++n_done; trail += " " + std::to_string(i); }
      } else if (!sleep[i]) cand.push_back(i);
    }
    if (took) continue;
    if (cand.empty()) { if (n_done >= L_best_n) { L_best_n = n_done; L_best = trail; } return 1; }
    std::sort(cand.begin(), cand.end(), [](int a, int b) {
      if (must(a) != must(b)) return must(a);
      return (*L_rec)[a].ret < (*L_rec)[b].ret;
    });
    if (cand.size() == 1 && must(cand[0])) {
      if (!L_exec(cand[0])) return 1;
      done[cand[0]] = 1; ++n_done; trail += " " + std::to_string(cand[0]);
      for (size_t j = 0; j < sleep.size(); ++j) if (sleep[j] && !independent(cand[0], j)) sleep[j] = 0;
      continue;
    }
    int result = 1;
    for (int i : cand) {
      if (*fork_budget() == 0) return 2;
      --*fork_budget();
      probe(p_lin_fork);
      pid_t pid = syscall(SYS_fork);
      if (pid < 0) harness_error("fork failed");
      if (pid == 0) {
        int r = 1;
        if (L_exec(i)) {
          std::vector<char> d = done, sl(done.size(), 0); d[i] = 1;
          for (size_t j = 0; j < sleep.size(); ++j) if (sleep[j] && independent(i, j)) sl[j] = 1;
          r = dfs(d, n_done + 1, trail + " " + std::to_string(i), sl);
        }
        syscall(SYS_exit_group, r);
      }
      int st = 0;
      while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
      if (shm->status) syscall(SYS_exit_group, 0);
      if (!WIFEXITED(st)) harness_error("reference execution ended by signal " + std::to_string(WTERMSIG(st)));
      int r = WEXITSTATUS(st);
      if (r == 0) return 0;
      if (r == 2) result = 2;
      sleep[i] = 1;
    }
    return result;
  }
}
void check_linearizable(const std::vector<Op>& ops, const std::vector<Rec>& rec, bool verbose, bool use_files) {
  L_ops = &ops; L_rec = &rec; L_files = use_files;
  *fork_budget() = 400;
  int sp = start_server(verbose);
  if (proc_ended(sp)) violation("reference-start", "the reference server does not start: " + tail_of(sp));
  int result = -1;
  Fiber* f = spawn("reference", 0, [&] {
    std::vector<char> done(ops.size(), 0);
    for (size_t i = 0; i < ops.size(); ++i) {
      const Rec& r = rec[i];
      // never issued, never received whole, or without effect and reply
      if (r.status == ST_NONE || r.status == ST_REFUSED || r.status == ST_HALF || (ops[i].b & 15) == B_RAW || ops[i].code < 1 || ops[i].code > 11) done[i] = 1;
      if (r.status != ST_OK && pure_op(ops[i].code)) done[i] = 1;
      if (ops[i].code == RQ_END) done[i] = 1;
      // a save that failed, and says so
      std::vector<std::string> v; size_t rest;
      if (ops[i].code == RQ_PRINT && r.status == ST_OK && parse_reply(RQ_PRINT, r.reply, v, rest) == 1 && v[0] != "0") { done[i] = 1; probe(p_save_failed); }
    }
    result = dfs(done, 0, "", std::vector<char>(ops.size(), 0));
  });
  if (!join_all({f})) violation("hang", "a sequential execution of the same requests does not finish\n" + describe_blocked());
  if (result == 2) { probe(p_lin_in); return; }
  if (result == 1) {
    std::string s;
    for (size_t i = 0; i < ops.size(); ++i) s += "  #" + std::to_string(i) + " " + op_text(ops[i], &rec[i]) + (rec[i].files.empty() ? "" : " files " + std::to_string(std::hash<std::string>()(rec[i].files) % 1000000)) + "\n";
    violation("not-linearizable", "no sequential order of these requests gives the replies that were received:\n" + s);
  }
  probe(p_lin_ok);
}
}  // namespace sim
