// The server under concurrent, possibly misbehaving clients.
#include "server_run.h"
#include "tools.h"
#include <string.h>
#include <algorithm>
using namespace sim;
namespace {
enum Variant { V_LIN, V_ONCE, V_ISOLATION, V_WIRE, V_HOSTILE, V_SHUTDOWN, V_PROGRESS, V_RACES, V_SNAPSHOT, V_LOG, V_SAVES, V_CLIENT, V_DISK, V_DAMAGE, N_VARIANTS };

long long par(const Plan& p, const char* n, long long d = 0) { auto it = p.par.find(n); return it == p.par.end() ? d : it->second; }

void scheduling(Rng& r, Cfg& c) {
  switch (r.below(5)) {
    case 0: c.sync_permille = 50 + r.below(400); break;
    case 1: c.sync_permille = 5 + r.below(60); c.access_mean = 2000 + r.below(200000); break;
    case 2: c.access_mean = 300 + r.below(30000); break;
    case 3: c.pct = 1 + r.below(5); break;
    case 4: c.sync_permille = 300; c.access_mean = 5000; break;
  }
  c.spurious_permille = r.permille(500) ? 100 : 0;
}
int pick_user(Rng& r) { static const int u[] = {0, 1, 2, 3, 7, 100, -1, 2147483647, -2147483647, 12345}; return r.permille(700) ? u[r.below(4)] : u[r.below(10)]; }
// any int is a user id; ids that are alike in some of their bits are different users
int alike_user(Rng& r, int u) {
  switch (r.below(5)) {
    case 0: return u ^ (1 << r.below(32));
    case 1: return (int)((unsigned)u + (1u << (4 + r.below(28))));
    case 2: return (int)(0u - (unsigned)u) - (int)r.below(2);
    case 3: return (int)((unsigned)u + 1000 * (1 + r.below(100)));
    default: return (int)((unsigned)u << r.below(3) * 8);
  }
}
int pick_code(Rng& r, const int* w) { int t = 0; for (int i = 1; i <= 11; ++i) t += w[i]; int x = r.below(t); for (int i = 1; i <= 11; ++i) { if (x < w[i]) return i; x -= w[i]; } return 2; }
bool gen_json;
std::string source(Rng& r, bool odd, int maxlen) {
  if (odd) return odd_sentence(r);
  if (r.permille(gen_json ? 600 : 80)) return constrained_sentence(r, gen_json);
  return sentence(r, false, maxlen);
}
Op make_op(Rng& r, int actor, int code, int user) {
  Op o; o.actor = actor; o.code = code; o.a = user;
  o.c = r.below(64 * (r.permille(500) ? 1 : 100));
  bool odd = r.permille(80);
  switch (code) {
    case RQ_TRANS: case RQ_TRANS_INFO: o.s = source(r, odd, 6); break;
    case RQ_VERIFY: o.s = source(r, odd, 4); o.t = sentence(r, true, 4); break;
    case RQ_TRAIN: o.s = sentence(r, false, 4); o.t = sentence(r, true, 4); if (odd) (r.permille(500) ? o.s : o.t) = odd_sentence(r); break;
    case RQ_ECM: o.s = sentence(r, true, 4); o.t = sentence(r, true, 4); if (odd) (r.permille(500) ? o.s : o.t) = odd_sentence(r); break;
    case RQ_CAT: o.s = source(r, odd, 5); break;
    case RQ_ADD: {
      static const char* x[] = {"the ", "t", "a ", "th", "house ", " ", "red", "the green", "zzz ", "big ", "", "dog ", "h"};
      o.s = x[r.below(13)]; break;
    }
  }
  return o;
}
void add_op(Plan& p, const Op& o) { p.ops.push_back(o); }
void probes_at_end(Rng& r, Plan& p, const std::set<int>& users) {
  add_op(p, make_op(r, FINAL_ACTOR, RQ_TRANS_INFO, *users.begin()));
  for (int u : users) if (r.permille(500)) add_op(p, make_op(r, FINAL_ACTOR, RQ_TRANS, u));
}
enum { BEFORE_ACTOR = 90, DAMAGE_ACTOR = 91 };
void generate(u64 seed, int variant, Plan& p) {
  Rng r(seed * 31 + variant);
  p.par["variant"] = variant;
  p.par["cfg"] = r.permille(500) ? 0 : r.below(N_CFG);
  static const int inis[] = {1, 4, 4, 5, 6, 7};
  p.par["ini"] = r.permille(700) ? 0 : inis[r.below(6)];
  if (const char* e = getenv("SIM_CFG")) p.par["cfg"] = atoi(e);      // to look at one of them
  if (const char* e = getenv("SIM_INI")) p.par["ini"] = atoi(e);
  if (variant == V_LOG && p.par["ini"] == INI_JSON) p.par["ini"] = 0;  gen_json = p.par["ini"] == INI_JSON;
  p.par["v"] = r.permille(200);
  scheduling(r, p.cfg);
  std::set<int> users;
  auto clients = [&](int n, int ops, const int* w, int users_of) {   // users_of 0: shared, 1: one per client
    std::vector<int> pool; for (int i = 0; i < 3; ++i) pool.push_back(pick_user(r));
    if (r.permille(400)) for (int i = 1; i < 3; ++i) pool[i] = alike_user(r, pool[r.below(i)]);
    bool alike = r.permille(500); int base = r.permille(500) ? (int)r.below(20) : pick_user(r);
    std::set<int> taken;
    for (int c = 0; c < n; ++c) {
      int own = users_of ? c * 3 + (int)r.below(3) : 0;
      if (users_of && c == 0 && r.permille(200)) own = -5;
      if (users_of && alike) own = c ? alike_user(r, base) : base;
      while (users_of && taken.count(own)) own = (int)((unsigned)own + 65536);
      taken.insert(own);
      for (int k = 0; k < ops; ++k) { int u = users_of ? own : pool[r.below(3)]; users.insert(u); add_op(p, make_op(r, c, pick_code(r, w), u)); }
    }
  };
  auto net_noise = [&] {
    p.cfg.net_short = r.permille(500) ? 300 : 0; p.cfg.net_sshort = r.permille(500) ? 300 : 0; p.cfg.net_delay = r.permille(400) ? 200 : 0;
    static const int caps[] = {65536, 1, 7, 64, 1000}; p.cfg.net_cap = caps[r.permille(600) ? 0 : r.below(5)];
  };
  //                         ver tr  tri trn ecm cat add rst prt bye end
  static const int W_LIN[] = {0, 6, 12, 8, 14, 3, 8, 8, 3, 4, 1, 0};
  static const int W_ALL[] = {0, 8, 16, 8, 10, 4, 10, 14, 4, 4, 1, 0};
  static const int W_READ[] = {0, 8, 16, 8, 0, 0, 14, 20, 6, 0, 1, 0};
  static const int W_TRAIN[] = {0, 2, 4, 2, 20, 3, 2, 2, 1, 3, 0, 0};
  switch (variant) {
    case V_LIN:
      clients(2 + r.below(3), 1 + r.below(4), W_LIN, 0);
      p.par["lin"] = 1; p.par["files"] = 1;
      probes_at_end(r, p, users);
      add_op(p, make_op(r, FINAL_ACTOR, RQ_PRINT, 0));
      break;
    case V_ONCE: {
      clients(2 + r.below(3), 1 + r.below(5), W_TRAIN, 0);
      for (auto& o : p.ops) {
        if (o.code == RQ_TRAIN && r.permille(250)) { static const int k[] = {B_CLOSE, B_RST, B_PARTREAD, B_CUT, B_CUT_RST, B_SLOWREAD}; o.b = k[r.below(6)] | r.below(64) << 4; }
      }
      if (p.ops.size() > 2 && r.permille(500)) { Op o = p.ops[r.below(p.ops.size())]; o.b = 0; o.actor = r.below(3); p.ops.push_back(o); }  // the same request again
      net_noise();
      if (r.permille(300)) p.cfg.net_reset = 5 + r.below(40);
      p.par["lin"] = 1; p.par["files"] = 1; p.par["once"] = 1;
      probes_at_end(r, p, users);
      add_op(p, make_op(r, FINAL_ACTOR, RQ_PRINT, 0));
      break;
    }
    case V_ISOLATION:
      clients(2 + r.below(3), 3 + r.below(7), W_READ, 1);
      p.par["iso"] = 1; p.par["prefix"] = 1;
      break;
    case V_WIRE:
      clients(1 + r.below(3), 2 + r.below(4), W_ALL, r.below(2));
      net_noise(); p.cfg.net_short = 500; p.cfg.net_sshort = 400;
      for (auto& o : p.ops) {
        o.c = (o.c & ~7) | r.below(6);
        if (n_args(o.code) == 1 && o.code != RQ_ADD && r.permille(120)) { // a message longer than any buffer
          o.s.clear(); int n = 1 + r.below(6); static const int len[] = {255, 256, 1023, 1024, 4095, 4096, 9000};
          if (o.code == RQ_CAT) n = 1;
          for (int i = 0; i < n; ++i) o.s += (i ? " " : "") + std::string(i % 2 ? 3 : len[r.below(7)], 'a' + i);
        }
        if (n_args(o.code) == 2 && r.permille(60)) o.t = std::string(200 + r.below(5000), 'q');
      }
      p.par["lin"] = 1; p.par["files"] = 0;
      break;
    case V_HOSTILE: {
      clients(2 + r.below(3), 2 + r.below(3), W_ALL, 0);
      for (auto& o : p.ops) if (r.permille(500)) {
        static const int k[] = {B_CLOSE, B_RST, B_CUT, B_CUT_RST, B_CUT_STALL, B_PARTREAD, B_RAW, B_SLOWREAD};
        int kind = k[r.below(8)];
        o.b = kind | r.below(256) << 4;
        if (kind == B_RAW) {
          static const int codes[] = {0, 12, -1, 99, 2147483647, 256, 65536, 1, 2, 4, 6, 7};
          int code = codes[r.below(12)];
          o.s = wire_int(code) + wire_int(pick_user(r));
          static const int lens[] = {-1, 2147483647, -2147483647, 1 << 20, 5, 0, 1000};
          // requests with an effect must not be complete by chance
          bool effect = code == RQ_TRAIN || code == RQ_CAT || code == RQ_ADD;
          for (int i = 0, n = r.below(3); i < n; ++i) { o.s += wire_int(lens[r.below(effect ? 4 : 7)]); for (int j = 0, m = r.below(12); j < m; ++j) o.s += (char)r.below(256); }
          o.code = code; 
        }
      }
      net_noise();
      p.cfg.net_cap = std::max(p.cfg.net_cap, 256);      // the scripted clients send without reading
      if (r.permille(300)) p.cfg.net_reset = 5 + r.below(30);
      p.par["lin"] = 1; p.par["files"] = 1;
      probes_at_end(r, p, users);
      add_op(p, make_op(r, FINAL_ACTOR, RQ_PRINT, 0));
      break;
    }
    case V_SHUTDOWN: {
      clients(2 + r.below(3), 1 + r.below(3), W_ALL, r.below(2));
      for (auto& o : p.ops) { if (r.permille(100)) o.b = (r.permille(500) ? B_CLOSE : B_SLOWREAD) | r.below(64) << 4; }
      // somebody stops the server while the others are at work
      Op e = make_op(r, 50, RQ_END, pick_user(r)); e.c = r.below(64 * 100); e.b = 0;
      p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), e);
      if (r.permille(300)) { Op f = e; f.actor = 51; f.c = r.below(6400); p.ops.push_back(f); }
      p.par["noend"] = 1; p.par["lin"] = 1;
      if (r.permille(500)) net_noise();
      break;
    }
    case V_PROGRESS:
      clients(2 + r.below(5), 2 + r.below(6), W_ALL, r.below(2));
      p.cfg.spurious_permille = 200;
      if (r.permille(500)) p.cfg.thread_fail = 20 + r.below(200);
      if (r.permille(400)) p.cfg.accept_err = 100;
      if (r.permille(300)) p.cfg.clock_jump = 20;
      break;
    case V_RACES:
      clients(2 + r.below(3), 1 + r.below(3), W_ALL, r.below(2));
      p.cfg.races = 1;
      if (r.permille(300)) { Op e = make_op(r, 50, RQ_END, 1); e.c = r.below(6400); p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), e); p.par["noend"] = 1; }
      break;
    case V_SNAPSHOT:
      clients(1 + r.below(3), 1 + r.below(4), W_LIN, 0);
      p.par["restart"] = 1; p.par["lin"] = 0;
      for (int i = 0; i < 3; ++i) add_op(p, make_op(r, FINAL_ACTOR, RQ_TRANS, 0));
      add_op(p, make_op(r, FINAL_ACTOR, RQ_PRINT, 0));
      if (r.permille(600)) {      // and what the two servers learn from then on is the same
        p.par["more"] = 1;
        for (int i = 1 + r.below(4); i > 0; --i) add_op(p, make_op(r, FINAL_ACTOR, RQ_TRAIN, 0));
        for (int i = 0; i < 2; ++i) add_op(p, make_op(r, FINAL_ACTOR, RQ_TRANS, 0));
        add_op(p, make_op(r, FINAL_ACTOR, RQ_PRINT, 0));
      }
      break;
    case V_LOG:
      // requests that change the models change what others log; then only the labels are compared
      p.par["train"] = r.below(2);
      clients(2 + r.below(3), 1 + r.below(3), p.par["train"] ? W_ALL : W_READ, 1);
      p.par["v"] = 1; p.par["log"] = 1; p.cfg.log_yield = 1;
      for (auto& o : p.ops) { if (n_args(o.code) && o.code != RQ_ADD && toks(o.s).empty()) o.s = "mesa"; if (n_args(o.code) > 1 && toks(o.t).empty()) o.t = "table"; }
      if (p.par["cfg"] == 2) p.par["cfg"] = 0;
      break;
    case V_SAVES: {
      static const int W_SAVE[] = {0, 6, 8, 5, 10, 3, 6, 6, 2, 18, 1, 0};
      clients(1 + r.below(4), 1 + r.below(4), W_SAVE, 0);
      p.par["lin"] = 1; p.par["files"] = 1; p.par["disk"] = 1;
      probes_at_end(r, p, users);
      add_op(p, make_op(r, FINAL_ACTOR, RQ_PRINT, 0));
      switch (r.below(6)) {
        case 0: p.cfg.disk_eio_w = 2 + r.below(100); break;
        case 1: p.cfg.disk_open = 10 + r.below(150); break;
        case 2: p.cfg.disk_meta = 100 + r.below(300); p.cfg.disk_eio_w = 5; break;
        case 3: p.cfg.disk_quota = r.permille(500) ? r.below(30000) : r.below(2000); break;
        case 4: p.cfg.disk_short = 300; p.cfg.disk_eintr = 100; break;
        case 5: p.cfg.disk_eio_w = 1 + r.below(20); p.cfg.disk_open = r.below(20); p.cfg.disk_short = 100; break;
      }
      break;
    }
    case V_CLIENT: {
      clients(1 + r.below(4), 1 + r.below(4), W_ALL, r.below(2));
      for (auto& o : p.ops) {
        if (o.code == RQ_TRANS_INFO) { o.code = RQ_TRANS; o.b = 1 << 4; }
        else if (o.code == RQ_BYE || o.code == RQ_ECM) o.code = RQ_RESET;
        if (r.permille(150)) { if (o.code == RQ_TRANS) o.b = 0; continue; }       // others speak the protocol themselves
        if (o.code == RQ_TRANS && !o.b && r.permille(300) && o.s.find('\n') == std::string::npos) o.b = 4 << 4;
        if (r.permille(200)) o.b |= 2 << 4;
        // what is given to a program has neither zero bytes nor the look of an option
        o.s.resize(strlen(o.s.c_str())); o.t.resize(strlen(o.t.c_str()));
        if (o.s[0] == '-') o.s[0] = 'x';
        if (o.t[0] == '-') o.t[0] = 'x';
        o.b |= B_TOOL;
      }
      net_noise();
      switch (r.below(7)) {
        case 6:                                  // a model that cannot be saved
          p.par["disk"] = 1;
          for (auto& o : p.ops) if ((o.b & 15) == B_TOOL) o.b &= ~(4 << 4);
          for (auto& o : p.ops) if ((o.b & 15) == B_TOOL && o.code != RQ_END && r.permille(250)) { o.code = RQ_PRINT; o.b &= ~(5 << 4); o.s.clear(); o.t.clear(); }
          if (r.permille(500)) p.cfg.disk_eio_w = 2 + r.below(100); else p.cfg.disk_open = 10 + r.below(150);
          break;
        case 0: p.cfg.net_reset = 5 + r.below(40); break;
        case 1: p.cfg.accept_err = 100; p.cfg.thread_fail = r.below(200); break;
        case 2: p.cfg.out_fail = 20 + r.below(200); p.par["accept_losses"] = 1; break;
        case 3: p.par["kill"] = 1 + r.below(r.permille(500) ? 2000 : 20000); break;
      }
      p.par["lin"] = 1; p.par["files"] = 1;
      probes_at_end(r, p, users);
      break;
    }
    case V_DISK:
      p.par["ini"] = 0;
      p.par["back"] = 1 + r.below(7); if (p.par["cfg"] == 13) p.par["cfg"] = 0;
      p.cfg.races = r.permille(200);
      // the phrase table in LevelDB cannot be extended online
      if ((p.par["back"] & 1) || r.permille(300)) clients(1 + r.below(4), 1 + r.below(5), W_READ, r.below(2));
      else clients(1 + r.below(3), 1 + r.below(4), W_LIN, 0);
      p.par["lin"] = 1; p.par["files"] = 0;
      probes_at_end(r, p, users);
      if (r.permille(700)) {                   // the models saved in LevelDB are those of the server that comes next
        p.par["restart"] = 1;
        Op pr; pr.actor = FINAL_ACTOR; pr.code = RQ_PRINT; pr.a = 1; add_op(p, pr);
      }
      break;
    case V_DAMAGE: {
      static const int W_SOME[] = {1, 6, 8, 5, 6, 6, 3, 6, 6, 2, 2, 0};
      bool real = r.permille(500);             // what a killed server leaves, or any truncated or lost file
      p.par["ini"] = 0;
      if (r.permille(200)) { p.par["back"] = 1 + r.below(7); if (p.par["cfg"] == 13) p.par["cfg"] = 0; }
      if (real) {
        clients(1, 1 + r.below(4), W_LIN, 0);
        for (auto& o : p.ops) o.actor = BEFORE_ACTOR;
        Op e; e.actor = BEFORE_ACTOR; e.code = RQ_PRINT; e.a = 1; p.ops.push_back(e);
        p.par["crash"] = 1 + r.below(r.permille(800) ? 80 : 200); p.par["power"] = r.permille(400);
      }
      if (!real || r.permille(200)) for (int i = 0, n = r.permille(700) ? 1 : 1 + r.below(4); i < n; ++i) {
        Op e; e.actor = DAMAGE_ACTOR; e.code = 100; e.a = r.below(1000); e.b = r.below(5); e.c = r.permille(300) ? 990 + r.below(11) : r.below(1001); p.ops.push_back(e);
      }
      clients(1 + r.below(2), 1 + r.below(4), W_SOME, 0);
      break;
    }
  }
  if (!p.par.count("noend")) { Op e; e.actor = FINAL_ACTOR; e.code = RQ_END; e.a = 0; add_op(p, e); }
}

int p_iso = probe_id("client-compared-with-running-alone"), p_pref = probe_id("prefix-reply-checked"), p_meta = probe_id("prefix-reply-compared-with-a-fresh-session"), p_moved = probe_id("models-moved-to-leveldb"), p_restart = probe_id("restart-from-saved-models-compared"), p_lines = probe_id("log-lines-checked");
std::string text_of(const Op& o, const Rec& r, int i) { std::vector<std::string> v; size_t rest; if (parse_reply(o.code, r.reply, v, rest) != 1 || i >= (int)v.size()) return ""; return v[i]; }

// what a client sees does not depend on the others
void check_isolation(const Plan& p, const std::vector<Rec>& rec) {
  std::map<int, std::vector<int>> by;
  for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].actor != FINAL_ACTOR) by[p.ops[i].actor].push_back(i);
  for (auto& kv : by) {
    run_phase([&] {
      std::vector<Op> mine; for (int i : kv.second) mine.push_back(p.ops[i]);
      std::vector<Rec> r; run_alone(mine, r, false);
      for (size_t k = 0; k < mine.size(); ++k) {
        const Rec& c = rec[kv.second[k]];
        if (c.status == ST_OK && r[k].reply != c.reply) violation("not-isolated", "with other users at work: " + op_text(mine[k], &c) + "\n  alone: " + op_text(mine[k], &r[k]));
      }
      probe(p_iso);
    });
  }
}
// CAT sessions: the reply begins with everything the user typed since the session began, and
// depends on nothing else
void check_sessions(const Plan& p, const std::vector<Rec>& rec) {
  struct S { bool on = false; std::string pref, src; };
  std::map<std::pair<int, int>, S> ss;
  std::vector<Op> meta; std::vector<std::pair<int, int>> cmp;
  int uid = 500000;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    if (rec[i].status != ST_OK) continue;
    // what the user asked before does not matter
    if ((pure_op(o.code) && o.code != RQ_END) || o.code == RQ_CAT) { Op a = o; a.a = uid++; a.b = a.c = 0; cmp.push_back({(int)meta.size(), (int)i}); meta.push_back(a); }
    S& s = ss[{o.actor, o.a}];
    if (o.code == RQ_CAT) { s.on = true; s.pref = ""; s.src = o.s; }
    else if (o.code == RQ_RESET) s.pref = "";
    else if (o.code == RQ_ADD) {
      s.pref += o.s;
      std::string r = text_of(o, rec[i], 0);
      if (r.compare(0, s.pref.size(), s.pref)) violation("prefix-lost", "the user typed \"" + printable(s.pref) + "\" and the suggestion is \"" + printable(r) + "\": " + op_text(o, &rec[i]));
      probe(p_pref);
      if (s.on) {
        Op a; a.code = RQ_CAT; a.a = uid; a.s = s.src; meta.push_back(a);
        Op b; b.code = RQ_ADD; b.a = uid++; b.s = s.pref; cmp.push_back({(int)meta.size(), (int)i}); meta.push_back(b);
      }
    }
  }
  if (cmp.empty()) return;
  run_phase([&] {
    std::vector<Rec> r; run_alone(meta, r, false);
    for (auto& c : cmp) {
      probe(p_meta);
      if (pure_op(meta[c.first].code) || meta[c.first].code == RQ_CAT) {
        if (r[c.first].reply != rec[c.second].reply) violation("depends-on-earlier-requests", "reply to a user with earlier requests: " + op_text(p.ops[c.second], &rec[c.second]) + "\n  to a new user: " + op_text(meta[c.first], &r[c.first]));
      } else if (r[c.first].reply != rec[c.second].reply) violation("session-state", "suggestion for the typed text: " + op_text(p.ops[c.second], &rec[c.second]) + "\n  a new session with the same text at once: " + op_text(meta[c.first - 1], &r[c.first - 1]) + " then " + op_text(meta[c.first], &r[c.first]));
    }
  });
}
// numbers (times, thread ids, scores) differ from run to run
std::string squeeze(const std::string& l) {
  std::string o;
  for (size_t i = 0; i < l.size();) {
    if (!isdigit((unsigned char)l[i])) { o += l[i++]; continue; }
    char* e; strtod(l.c_str() + i, &e);
    i = std::max<size_t>(e - l.c_str(), i + 1);
    o += '#';
  }
  return o;
}
std::set<std::string> lines_of(const std::string& e, bool labels) {
  std::set<std::string> v; std::string l;
  auto put = [&] { l = squeeze(l); size_t i = l.find(':'); if (labels && i != std::string::npos) l.resize(i); v.insert(l); l.clear(); };
  for (char c : e) if (c == '\n') put(); else l += c;
  if (!l.empty()) put();
  return v;
}
void blob_put(const std::vector<std::string>& parts) {
  u64 o = 0;
  for (auto& s : parts) {
    if (o + s.size() + 4096 > BLOB_MAX) harness_error("blob too large");
    u64 n = s.size(); memcpy(shm->blob + o, &n, 8); memcpy(shm->blob + o + 8, s.data(), n); o += 8 + n;
  }
  shm->blob_len = o;
}
std::vector<std::string> blob_get() {
  std::vector<std::string> v; u64 o = 0;
  while (o < shm->blob_len) { u64 n; memcpy(&n, shm->blob + o, 8); v.push_back(std::string(shm->blob + o + 8, n)); o += 8 + n; }
  return v;
}
// the models of the server moved into LevelDB tables, as the training scripts do it
// (thot_tm_train -ldb, thot_lm_train -ldb, alignment models through master.ini)
enum { ON_TM = 1, ON_LM = 2, ON_SWM = 4 };
std::string on_disk(int mask) {
  auto must = [](const ToolEnd& e, const Tool& t) { if (!e.ok()) violation("conversion-failed", tool_text(t) + " ends with code " + std::to_string(e.code) + "\n" + e.err); };
  auto change = [](const std::string& f, const std::string& a, const std::string& b) {
    std::string d; if (!vfs_get(f, d)) harness_error("no " + f);
    size_t i = d.find(a); if (i == std::string::npos) harness_error("no " + a + " in " + f);
    vfs_put(f, d.replace(i, a.size(), b));
  };
  const std::string tm = "/sim/toy/tm/main/src_trg", lm = "/sim/toy/lm/main/trg.lm";
  auto words = [](const std::string& d, int n, std::map<std::string, std::string>& v) {
    std::string out, line;
    for (char c : d) if (c != '\n') line += c; else {
      auto w = toks(line); line.clear();
      if ((int)w.size() != n) continue;
      v[w[1]] = w[0]; out += w[0] + " " + w[1] + " " + w[2] + "\n";
    }
    return out;
  };
  if (mask & ON_TM) {
    Tool t;
    {
      Karena k;
      std::string sv, tv, d; std::map<std::string, std::string> s, g;
      vfs_get(tm + "_swm.svcb", d); sv = words(d, 3, s);
      vfs_get(tm + "_swm.tvcb", d); tv = words(d, 3, g);
      vfs_put(tm + ".ldb_svcb", sv); vfs_put(tm + ".ldb_tvcb", tv);
      vfs_get(tm + ".ttable", d);
      std::string line;
      for (char c : d) if (c != '\n') line += c; else {
        auto w = toks(line); line.clear();
        std::string o; int part = 0; bool good = true;
        for (size_t i = 0; i + 2 < w.size(); ++i) {
          if (w[i] == "|||") { ++part; o += "||| "; continue; }
          auto& m = part ? g : s;
          if (!m.count(w[i])) { good = false; break; }
          o += m[w[i]] + " ";
        }
        if (good) t.in += o + w[w.size() - 2] + " " + w[w.size() - 1] + "\n";
      }
      t.name = "thot_ttable_to_leveldb"; t.args = {"-o", tm + "_ldb_phrdict"};
      change("/sim/toy/tm/tm_desc", "incr_phrase_model_factory", "leveldb_phrase_model_factory");
      vfs_remove_tree(tm + ".ttable");
    }
    ToolEnd e = run_tool(t, vfs_image(), true); must(e, t); vfs_restore(e.image);
  }
  if (mask & ON_LM) {
    Tool t;
    {
      Karena k;
      vfs_get(lm, t.in); vfs_remove_tree(lm);
      t.name = "thot_ngram_to_leveldb"; t.args = {"-o", lm};
      change("/sim/toy/lm/lm_desc", "incr_jel_mer_ngram_lm_factory", "incr_jel_mer_leveldb_ngram_lm_factory");
    }
    ToolEnd e = run_tool(t, vfs_image(), true); must(e, t); vfs_restore(e.image);
  }
  if (mask & ON_SWM) for (const char* x : {"_swm", "_invswm"}) {
    Tool t;
    { Karena k; t.name = "thot_lextable_to_leveldb"; t.args = {"-i", tm + x + ".hmm_lexnd", "-o", tm + x}; }
    ToolEnd e = run_tool(t, vfs_image(), true); must(e, t); vfs_restore(e.image);
    vfs_remove_tree(tm + x + ".hmm_lexnd");
  }
  if (mask & ON_SWM) { Karena k; change("/sim/share/master.ini", "incr_hmm_p0_alig_model_factory", "incr_leveldb_hmm_p0_alig_model_factory"); }
  return vfs_image();
}
int p_refused = probe_id("damaged-models-refused"), p_served = probe_id("damaged-models-served"), p_killed = probe_id("server-killed-while-saving"), p_gone = probe_id("model-file-damaged");
void damage(const Op& o) {
  Karena k;
  std::vector<std::string> l;
  for (auto& f : vfs_list("/sim/toy/")) if (!f.compare(0, 12, "/sim/toy/tm/") || !f.compare(0, 12, "/sim/toy/lm/")) l.push_back(f);
  if (l.empty()) return;
  std::string f = l[o.a % l.size()], d;
  vfs_get(f, d);
  size_t cut = d.size() * o.c / 1000;
  switch (o.b) {
    case 0: vfs_put(f, d.substr(0, cut)); break;
    case 1: vfs_remove_tree(f); break;
    case 2: vfs_put(f, ""); break;
    case 3: vfs_remove_tree(f); vfs_mkdirs(f); break;
    case 4: vfs_put(f, d.substr(0, cut) + std::string(d.size() - cut, '\0')); break;
  }
  probe(p_gone);
  sim_eventlog("damage %d at %zu of %zu in %s", (int)o.b, cut, d.size(), f.c_str());
}
// a server started from what a crash or a full disk left of the models refuses them or works
void run_damage(const Plan& p) {
  static const Plan* P; P = &p;
  static std::string image;
  static std::vector<Op> before, after, dmg;
  for (auto& o : p.ops) (o.actor == BEFORE_ACTOR ? before : o.actor == DAMAGE_ACTOR ? dmg : after).push_back(o);
  static int back; back = par(p, "back");
  if (back) image = on_disk(back); else image = vfs_image();
  vfs_restore(image);
  if (!before.empty()) {
    int r = run_phase([&] {
      bool muted = g_muted; g_muted = true;
      vfs_mark_durable();
      int sp = start_server(false);
      g_muted = muted;
      if (proc_ended(sp)) violation("server-start", "the server does not start: " + tail_of(sp));
      // the disk operations of the requests come before those of the save: count from the last request
      std::vector<Rec> rec(before.size());
      Fiber* f = spawn("before", 0, [&] {
        for (size_t i = 0; i < before.size(); ++i) {
          if (i + 1 == before.size()) { cfg.crash_at = (long long)vfs_ops() + par(*P, "crash"); cfg.crash_power = par(*P, "power"); }
          exec_op(before[i], rec[i]);
        }
      });
      join_all({f});
      blob_put({vfs_image()});
    });
    Karena k;
    if (r == PHASE_CRASHED) { probe(p_killed); image.assign(shm->blob, shm->blob_len); }
    else image = blob_get()[0];
  }
  std::map<std::string, std::string> had;
  if (g_verbose) { Karena k; for (auto& f : vfs_list("/sim/toy/")) vfs_get(f, had[f]); }
  vfs_restore(image);
  for (auto& o : dmg) damage(o);
  image = vfs_image();
  if (g_verbose) {
    Karena k;
    for (auto& f : had) { std::string d; bool there = vfs_get(f.first, d); if (!there) sim_eventlog("gone: %s", f.first.c_str()); else if (d != f.second) sim_eventlog("changed: %s from %zu to %zu bytes", f.first.c_str(), f.second.size(), d.size()); }
  }
  run_phase([&] {
    int sp = start_server(par(*P, "v"));
    if (proc_ended(sp)) {
      if (proc(sp).code == 0) violation("refused-without-error", "the server ends with exit code 0 without serving: " + tail_of(sp));
      probe(p_refused);
      return;
    }
    probe(p_served);
    std::vector<Rec> rec; RunOpts o; o.verbose = par(*P, "v"); o.check_train = false; o.can_train = false; o.disk_ok = false;
    run_history(after, rec, sp, o);
  });
  run_ok();
}
void run(const Plan& p) {
  if (par(p, "variant") == V_DAMAGE) { install_cfg(par(p, "cfg"), par(p, "ini")); run_damage(p); return; }
  static std::vector<Rec> rec;
  static std::vector<std::string> blob;
  static const Plan* P; P = &p;
  install_cfg(par(p, "cfg"), par(p, "ini"));
  RunOpts o; o.verbose = par(p, "v");
  o.can_train = par(p, "cfg") != 2;
  o.disk_ok = !par(p, "disk");
  o.accept_losses = par(p, "accept_losses"); o.kill_at = par(p, "kill");
  static std::string image, plain;
  int back = par(p, "back");
  if (back) { plain = vfs_image(); image = on_disk(back); probe(p_moved); }
  run_phase([&] {
    bool muted = g_muted, disk = par(*P, "disk");
    if (disk) g_muted = true;                // the faults begin when the server is up
    int sp = start_server(par(*P, "v"));
    g_muted = muted;
    if (proc_ended(sp)) violation("server-start", "the server does not start: " + tail_of(sp));
    size_t e0 = proc(sp).err.size();
    std::string image, lm; vfs_get("/sim/toy/lm/main/trg.lm", lm);
    if (par(*P, "more")) g_image_at_save = &image;
    run_history(P->ops, rec, sp, o);
    g_image_at_save = nullptr;
    int cfg = par(*P, "cfg");
    double step = cfg == 9 || cfg == 12 ? 0.5 : 1;       // learning step size in the configuration
    if (par(*P, "once")) check_once(P->ops, rec, step);
    if (par(*P, "once") && cfg != 2 && cfg != 4 && cfg != 10) check_lm(P->ops, rec, lm, step);
    blob_put({ser(rec), image.empty() ? vfs_image() : image, proc(sp).err.substr(e0)});
  });
  { Karena k; blob = blob_get(); rec = deser(blob[0]); }
  g_muted = true;
  if (back) vfs_restore(plain);
  if (par(p, "lin")) run_phase([&] { check_linearizable(P->ops, rec, false, par(*P, "files")); });
  if (par(p, "iso")) { check_isolation(p, rec); check_sessions(p, rec); }
  if (par(p, "restart")) run_phase([&] {
    vfs_restore(blob[1]);
    std::vector<Op> ops; std::vector<int> from;
    bool saved = false;
    for (size_t i = 0; i < P->ops.size(); ++i) {
      const Op& q = P->ops[i];
      if (q.actor != FINAL_ACTOR || q.code == RQ_END) continue;
      if (q.code == RQ_PRINT && rec[i].status == ST_OK) saved = true;
      if (q.code == RQ_TRAIN && !saved) continue;
      ops.push_back(q); from.push_back(i);
    }
    std::vector<Rec> r; run_alone(ops, r, false);
    // the phrase model does not save which phrases the earlier sentences gave, so a restarted
    // server cannot take their counts back when it trains on them again (known finding)
    bool retrains = par(*P, "cfg") == 12 && !par(*P, "strict"), again = false;
    for (size_t k = 0; k < ops.size(); ++k) {
      const Op& q = ops[k];
      if (rec[from[k]].status != ST_OK) continue;
      if (q.code == RQ_TRAIN) again = true;
      if (again && retrains && q.code != RQ_PRINT) continue;
      if (q.code == RQ_TRANS || q.code == RQ_TRANS_INFO || q.code == RQ_CAT) {
        probe(p_restart);
        if (text_of(q, r[k], 0) != text_of(q, rec[from[k]], 0)) violation("restart-differs", "before the restart: " + op_text(q, &rec[from[k]]) + "\n  after it: " + op_text(q, &r[k]));
      }
      if (q.code == RQ_PRINT && g_verbose) sim_eventlog("AFTER\n%s", r[k].files.c_str());
      if (q.code == RQ_PRINT && !back && r[k].files != rec[from[k]].files) {
        std::string d = differing_files(r[k].files, rec[from[k]].files);
        if (again && retrains && d == " tm/main/src_trg.ttable") continue;
        violation(again ? "restart-training-differs" : "restart-models-differ", std::string(again ? "training and saving" : "saving") + " the models again after a restart gives other models than without it:" + d);
      }
    }
  });
  if (par(p, "log")) run_phase([&] {
    std::vector<Rec> r; std::vector<Op> ops = P->ops;
    int sp = cur_proc(); (void)sp;
    run_alone(ops, r, true);
    std::set<std::string> good;
    for (int i = 1; i < 8; ++i) { if (!proc(i).name.compare("server")) { good = lines_of(proc(i).err, par(*P, "train")); break; } }
    for (auto& l : lines_of(blob[2], par(*P, "train"))) { probe(p_lines); if (!good.count(l)) violation("torn-log-line", "this line of the log is none of those a request writes: " + printable(l)); }
  });
  run_ok();
}
void load() { load_models(); }
struct Reg { Reg() { register_world(World{"server", generate, run, load}); } } reg;
}
