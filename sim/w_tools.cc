// The command-line programs: what a program that ends with success has written.
#include <math.h>
#include <string.h>
#include <algorithm>
#include <sstream>
#include "proto.h"
#include "tools.h"
namespace sim {
namespace {
enum { V_OUTPUT = 0, V_MERGE = 1, V_INPUT = 2 };
enum { T_SW, T_PHR, T_ALIG, T_SORTLEX, T_MERGELEX, T_PRUNE, T_FILTER, T_FILTINFO, T_SORTHMM, T_MERGEHMM, T_SORTIBM2, T_MERGEIBM2, T_DEC, T_MSALIG, T_WG,
       T_LMW, T_LIW, T_LLW, T_SWLP, T_QUERY, T_SCORER, T_BLEU, T_LMPERP, T_ILMPERP, T_META, T_CONSTR, N_TOOLS };
const char* names[] = {"thot_gen_sw_model", "thot_gen_phr_model", "thot_alig_op", "thot_sort_bin_ilextable", "thot_merge_bin_ilextable", "thot_prune_bin_ilextable", "thot_filter_bin_ilextable",
                       "thot_gen_bin_lex_filter_info", "thot_sort_bin_ihmmatable", "thot_merge_bin_ihmmatable", "thot_sort_bin_iibm2atable", "thot_merge_bin_iibm2atable", "thot_ms_dec", "thot_ms_alig",
                       "thot_wg_proc", "thot_lm_weight_upd", "thot_li_weight_upd", "thot_ll_weight_upd_nblist", "thot_calc_swm_lgprob", "thot_query_pm", "thot_scorer", "thot_calc_bleu", "thot_lm_perp",
                       "thot_ilm_perp", "thot_get_srcsents_from_metadata", "thot_check_constraints"};
const char* const W = "/sim/w/";
int p_same = probe_id("tool-output-same-under-faults"), p_rep = probe_id("tool-failure-reported"), p_rerun = probe_id("tool-run-again-after-crash"), p_merge = probe_id("chunk-tables-merged");
int par(const Plan& p, const char* k, int d = 0) { auto i = p.par.find(k); return i == p.par.end() ? d : i->second; }

std::map<std::string, std::string>* put_files;
std::string make_image(const std::string& from, const std::map<std::string, std::string>& files, const std::string& copy_from = "", const std::string& copy_to = "") {
  static std::string F, A, B; { Karena k; F = from; A = copy_from; B = copy_to; put_files = new std::map<std::string, std::string>(files); }
  int r = run_phase([] {
    g_muted = true; Karena k;
    if (!F.empty()) vfs_restore(F);
    vfs_mkdirs("/sim/w"); vfs_mkdirs("/sim/in");
    if (!A.empty()) { vfs_mkdirs(B); for (auto& f : vfs_list(A)) { std::string d; vfs_get(f, d); std::string to = B + f.substr(A.size()); vfs_mkdirs(to.substr(0, to.rfind('/'))); vfs_put(to, d); } }
    for (auto& f : *put_files) vfs_put(f.first, f.second);
    std::string s = vfs_image(); if (s.size() > BLOB_MAX) harness_error("blob too large"); memcpy(shm->blob, s.data(), s.size()); shm->blob_len = s.size();
  });
  if (r != PHASE_DONE) harness_error("make_image");
  Karena k; return std::string(shm->blob, shm->blob_len);
}
// ---- inputs
struct Sents { std::string src, trg; std::vector<std::pair<std::string, std::string>> v; };
Sents sents(const Plan& p) { Sents s; for (auto& o : p.ops) if (o.code == 0) { s.src += o.s + "\n"; s.trg += o.t + "\n"; s.v.push_back({o.s, o.t}); } return s; }
// GIZA alignment of the pair; inv: the other direction
std::string giza(const Sents& s, u64 seed, bool inv) {
  Rng r(seed); std::string o; int n = 0;
  for (auto& x : s.v) {
    auto a = toks(inv ? x.second : x.first), b = toks(inv ? x.first : x.second);
    std::vector<std::vector<int>> al(b.size() + 1);
    for (size_t i = 0; i < a.size(); ++i) { int j = r.permille(600) ? (int)std::min(i + 1, b.size()) : (int)r.below(b.size() + 1); al[j].push_back(i + 1); }
    o += "# " + std::to_string(++n) + "\n";
    std::string l; for (auto& w : a) l += (l.empty() ? "" : " ") + w;
    o += l + "\n";
    for (size_t j = 0; j <= b.size(); ++j) { o += (j ? b[j - 1] : std::string("NULL")) + " ({ "; for (int k : al[j]) o += std::to_string(k) + " "; o += "}) "; }
    o += "\n";
  }
  return o;
}
// binary tables: keys a | b<<32 (and c for the third key), values as logarithms
struct Ent { unsigned k[3]; float num, den; };
int keys(int tool) { return tool == T_SORTHMM || tool == T_MERGEHMM ? 3 : tool == T_SORTIBM2 || tool == T_MERGEIBM2 ? 4 : 2; }
float logof(long long x) { return logf((float)x / 64); }
void raw(std::string& o, const void* p, size_t n) { o.append((const char*)p, n); }
struct Rec { std::vector<unsigned> k; float num, den; };
std::string bin(const std::vector<Rec>& v) { std::string o; for (auto& e : v) { for (auto x : e.k) raw(o, &x, 4); raw(o, &e.num, 4); raw(o, &e.den, 4); } return o; }
std::vector<Rec> unbin(const std::string& s, int nk) { std::vector<Rec> v; size_t n = nk * 4 + 8; if (s.size() % n) violation("wrong-output", "the table ends in the middle of a record"); for (size_t i = 0; i < s.size(); i += n) { Rec e; for (int j = 0; j < nk; ++j) { unsigned x; memcpy(&x, &s[i + j * 4], 4); e.k.push_back(x); } memcpy(&e.num, &s[i + nk * 4], 4); memcpy(&e.den, &s[i + nk * 4 + 4], 4); v.push_back(e); } return v; }
Rec rec(const Op& o, int nk) { Rec e; unsigned all[4] = {(unsigned)(o.a & 0xffffffff), (unsigned)(o.b & 0xffffffff), (unsigned)(o.a >> 32), (unsigned)(o.b >> 32)}; for (int i = 0; i < nk; ++i) e.k.push_back(all[i]); e.num = logof(atoll(o.s.c_str())); e.den = logof(atoll(o.t.c_str())); return e; }
std::vector<Rec> recs(const Plan& p, int nk, int chunk = -1) { std::vector<Rec> v; for (auto& o : p.ops) if (o.code == 1 && (chunk < 0 || o.c == chunk)) v.push_back(rec(o, nk)); return v; }

struct Job { Tool t; std::string image; };
void need(const ToolEnd& e, const Tool& t) { if (!e.ok()) violation("tool-failed", tool_text(t) + " fails although nothing is wrong (" + std::to_string(e.how) + " " + std::to_string(e.code) + ")\n" + e.err); }
std::string n2s(int x) { return std::to_string(x); }

Job job(const Plan& p, int tool) {
  Job j; j.t.name = names[tool];
  auto& a = j.t.args; std::map<std::string, std::string> f; int opt = par(p, "opt"), opt2 = par(p, "opt2");
  Sents s = sents(p);
  auto img = [&] { j.image = make_image(j.image, f); f.clear(); };
  switch (tool) {
    case T_SW:
      f["/sim/in/s"] = s.src; f["/sim/in/t"] = s.trg;
      a = {"-s", "/sim/in/s", "-t", "/sim/in/t", "-n", n2s(1 + opt2 % 3), "-o", "/sim/w/m"};
      if (opt % 5 == 1) a.push_back("-eb");
      if (opt % 5 == 2) a.push_back("-i");
      if (opt % 5 == 3) { a.push_back("-mb"); a.push_back("2"); }
      if (opt % 5 == 4) a.push_back("-nl");
      break;
    case T_PHR:
      f["/sim/in/g"] = giza(s, p.seed, false);
      a = {"-g", "/sim/in/g", "-m", n2s(1 + opt2 % 7), "-o", "/sim/w/p"};
      if (opt % 3 == 1) a.push_back("-mon");
      if (opt % 3 == 2) a.push_back("-brf");
      break;
    case T_ALIG: {
      f["/sim/in/g"] = giza(s, p.seed, false); f["/sim/in/h"] = giza(s, p.seed + 1, true);
      const char* ops[] = {"-and", "-or", "-sum", "-sym1", "-sym2", "-grd"};
      a = {"-g", "/sim/in/g", ops[opt % 6], "/sim/in/h", "-o", "/sim/w/a"};
      if (opt2 % 4 == 1) a.push_back("-e");
      if (opt2 % 4 == 2) { a.push_back("-e"); a.push_back("-compact"); }
      break;
    }
    case T_SORTLEX: case T_FILTINFO: case T_SORTHMM: case T_SORTIBM2: f["/sim/in/t"] = bin(recs(p, keys(tool))); a = {tool == T_SORTHMM || tool == T_SORTIBM2 ? "-a" : "-l", "/sim/in/t"}; break;
    case T_PRUNE: case T_FILTER: case T_MERGELEX: case T_MERGEHMM: case T_MERGEIBM2: {
      std::vector<Rec> v = recs(p, keys(tool)); std::stable_sort(v.begin(), v.end(), [](const Rec& x, const Rec& y) { return x.k < y.k; });
      f["/sim/in/t"] = bin(v);
      if (tool == T_PRUNE) a = {"-l", "/sim/in/t", "-n", n2s(opt % 5), "-c", opt2 % 2 ? "0.1" : "0"};
      else if (tool == T_FILTER) { std::string q; for (size_t i = 0; i < v.size(); i += 1 + opt % 3) { raw(q, &v[i].k[0], 4); raw(q, &v[i].k[1], 4); } f["/sim/in/q"] = q; a = {"-l", "/sim/in/t", "-f", "/sim/in/q"}; }
      else { f["/sim/in/u"] = bin(v); a = {"/sim/in/t", "/sim/in/u"}; }
      break;
    }
    case T_DEC: case T_MSALIG: case T_WG: {
      f["/sim/in/s"] = s.src; f["/sim/in/t"] = s.trg;
      a = {"-c", "/sim/toy/server.cfg", "-t", "/sim/in/s"};
      if (tool == T_MSALIG) { a.push_back("-r"); a.push_back("/sim/in/t"); if (opt % 3 == 1) a.push_back("-p"); if (opt % 3 == 2) a.push_back("-cov"); }
      else if (opt % 2) { a.push_back("-o"); a.push_back("/sim/w/o"); }
      if (opt2 % 2 || tool == T_WG) { a.push_back("-wg"); a.push_back("/sim/w/wg"); }
      if (tool == T_WG) {
        img(); Tool d; d.name = names[T_DEC]; d.args = a; ToolEnd e = run_tool(d, j.image, true); need(e, d);
        std::string g; for (auto& x : e.files) if (x.first.find("/wg") != std::string::npos) { g = x.second; break; }
        j.image.clear(); f["/sim/in/wg"] = g;
        a = {"-w", "/sim/in/wg", "-o", "/sim/w/o"};
        if (opt & 1) { a.push_back("-n"); a.push_back(n2s(1 + opt2 % 9)); if (opt2 & 1) a.push_back("-y"); }
        if (opt & 2) { a.push_back("-bp"); a.push_back("0"); }
        if (opt & 4) { a.push_back("-wgp"); a.push_back(opt2 % 3 ? "1" : "0"); }
        if (opt & 8) a.push_back("-u");
        if (opt & 16) a.push_back("-t");
      }
      break;
    }
    case T_LMW: j.image = make_image("", {{"/sim/in/c", s.trg}}, "/sim/toy", "/sim/w/toy"); a = {"-lm", "/sim/w/toy/lm/lm_desc", "-c", "/sim/in/c"}; break;
    case T_LIW: j.image = make_image("", {{"/sim/in/s", s.src}, {"/sim/in/t", s.trg}}, "/sim/toy", "/sim/w/toy"); a = {"-tm", opt % 2 ? "/sim/w/toy/tm/tm_desc" : "/sim/w/toy/tm/main/src_trg", "-t", "/sim/in/s", "-r", "/sim/in/t"}; break;
    case T_LLW: {
      std::string l; int n = 0; Rng r(p.seed);
      for (auto& x : s.v) {
        std::string nb = "# header\n"; for (int i = 0, c = 1 + r.below(4); i < c; ++i) { nb += "-" + n2s(r.below(90)) + " ||| -" + n2s(r.below(50)) + " -" + n2s(r.below(50)) + "." + n2s(r.below(9)) + " ||| " + (i ? sentence(r, true, 4) : x.second) + "\n"; }
        std::string fn = "/sim/in/nb" + n2s(n++); f[fn] = nb; l += fn + "\n";
      }
      f["/sim/in/l"] = l; f["/sim/in/r"] = s.trg; a = {"-w", "1", "0.5", "-va", "1", opt % 2 ? "1" : "0", "-nb", "/sim/in/l", "-r", "/sim/in/r"}; break;
    }
    case T_SWLP: {
      a = {"-sw", "/sim/toy/tm/main/src_trg_swm"};
      if (opt % 3 == 0 && !s.v.empty()) { a.insert(a.end(), {"-ss", s.v[0].first, "-ts", s.v[0].second}); if (opt2 % 2) a.push_back("-max"); }
      else { std::string q; for (auto& x : s.v) q += x.first + " ||| " + x.second + "\n"; a.push_back("-P"); if (opt % 3 == 1) { f["/sim/in/q"] = q; a.push_back("/sim/in/q"); } else { j.t.in = q; a.push_back("-"); } if (opt2 % 2) a.push_back("-max"); }
      break;
    }
    case T_QUERY: {
      a = {"-l", "/sim/toy/tm/main/src_trg"};
      if (opt % 3 == 0 && !s.v.empty()) a.insert(a.end(), {"-p", s.v[0].first});
      else if (opt % 3 == 1) { f["/sim/in/q"] = s.src; a.insert(a.end(), {"-q", "/sim/in/q"}); }
      else { std::string q; for (auto& x : s.v) q += x.first + " ||| " + x.second + "\n"; f["/sim/in/q"] = q; a.insert(a.end(), {"-f", "/sim/in/q"}); }
      if (opt2 % 2) a.push_back("-i");
      break;
    }
    case T_SCORER: case T_BLEU: { std::string h; Rng r(p.seed); for (auto& x : s.v) h += (r.permille(500) ? x.second : sentence(r, true, 5)) + "\n"; f["/sim/in/r"] = s.trg; f["/sim/in/t"] = h; a = {"-r", "/sim/in/r", "-t", "/sim/in/t"}; if (tool == T_BLEU && opt % 2) a.push_back("-sm"); if (tool == T_BLEU && opt2 % 2) a.push_back("-v"); break; }
    case T_LMPERP: f["/sim/in/c"] = s.trg; a = {"-c", "/sim/in/c", "-lm", opt % 2 ? "/sim/toy/lm/lm_desc" : "/sim/toy/lm/main/trg.lm", "-n", "3"}; if (opt2 % 3) a.push_back(opt2 % 3 == 1 ? "-v" : "-v1"); break;
    case T_ILMPERP: f["/sim/in/c"] = s.trg; a = {"-c", "/sim/in/c", "-lm", "/sim/toy/lm/main/trg.lm", "-n", "3", opt % 2 ? "-jm" : "-cjm"}; if (opt2 % 3) a.push_back(opt2 % 3 == 1 ? "-v" : "-v1"); break;
    case T_META: case T_CONSTR: {
      std::string m, t, al; for (size_t i = 0; i < s.v.size(); ++i) { auto w = toks(s.v[i].first); std::string q; size_t c = opt % 3 ? w.size() : w.size() / 2; for (size_t k = 0; k < w.size(); ++k) q += k == c ? " <phr_pair_annot><src_segm>" + w[k] + "</src_segm><trg_segm>" + w[k] + "</trg_segm></phr_pair_annot>" : (k ? " " : "") + w[k]; m += q + "\n"; t += s.v[i].second + "\n"; }
      f["/sim/in/m"] = m;
      if (tool == T_META) a = {"-f", "/sim/in/m"};
      else {
        f["/sim/in/t"] = t; for (auto& x : s.v) { size_t n = toks(x.first).size(), k = toks(x.second).size(); al += "( 1 , " + n2s(n) + " ) | " + n2s(k) + "\n"; }
        f["/sim/in/a"] = al; a = {"-s", "/sim/in/m", "-t", "/sim/in/t", "-a", "/sim/in/a"};
      }
      break;
    }
  }
  img();
  return j;
}
std::string first_diff(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "sizes " + n2s(a.size()) + " and " + n2s(b.size()) + ", different from byte " + n2s(i); }
bool same(const ToolEnd& a, const ToolEnd& b, std::string& why) {
  if (a.out != b.out) { why = "standard output: " + first_diff(a.out, b.out); return false; }
  for (auto& f : a.files) { auto i = b.files.find(f.first); if (i == b.files.end()) { why = f.first + " is missing"; return false; } if (i->second != f.second) { why = f.first + ": " + first_diff(f.second, i->second); return false; } }
  for (auto& f : b.files) if (!a.files.count(f.first)) { why = f.first + " should not exist"; return false; }
  return true;
}
void run_output(const Plan& p) {
  int tool = par(p, "tool");
  static Job j; j = job(p, tool);
  ToolEnd ref = run_tool(j.t, j.image, true);
  if (ref.how != T_EXIT) violation("tool-aborted", tool_text(j.t) + " aborts");
  bool failing = p.cfg.disk_eio_w || p.cfg.open_w || p.cfg.disk_quota >= 0 || p.cfg.out_fail || p.cfg.disk_meta;
  std::string image = j.image; ToolEnd e;
  for (int k = 0; k < 3; ++k) {
    long long c = par(p, ("crash" + n2s(k)).c_str(), -1);
    e = run_tool(j.t, image, false, k < 2 ? c : -1);
    if (e.how != T_CRASH) break;
    image = e.image; probe(p_rerun);
  }
  std::string why;
  if (g_verbose) { sim_eventlog("%s: %d %d", tool_text(j.t).c_str(), e.how, e.code); fprintf(stderr, "REF code %d out [%s]\nerr [%s]\n", ref.code, ref.out.substr(0, 600).c_str(), ref.err.substr(0, 600).c_str()); for (auto& f : ref.files) fprintf(stderr, "  %s %zu\n", f.first.c_str(), f.second.size()); }
  if (e.ok() && ref.ok()) { if (!same(ref, e, why)) violation("wrong-output", tool_text(j.t) + " ends with success but its output differs from that of an undisturbed run: " + why + "\n" + e.err.substr(0, 2000)); probe(p_same); }
  else if (ref.ok()) { if (!failing) violation("tool-failed", tool_text(j.t) + " fails although nothing went wrong (" + n2s(e.how) + " " + n2s(e.code) + ")\n" + e.err); probe(p_rep); }
  else if (e.ok()) violation("wrong-output", tool_text(j.t) + " ends with success where an undisturbed run fails\n" + ref.err);
}
// ---- tables of several chunks merged into one
void run_merge(const Plan& p) {
  int tool = par(p, "tool"), nk = keys(tool), chunks = par(p, "chunks");
  Tool t; t.name = names[tool]; t.in = "";
  std::map<std::string, std::string> f; std::map<std::vector<unsigned>, double> num; std::map<std::vector<unsigned>, std::map<int, double>> den;
  int key1 = nk - 1;   // the last key is the event, those before it the condition
  for (int c = 0; c < chunks; ++c) f["/sim/in/c" + n2s(c)] = "";
  for (int c = 0; c < chunks; ++c) {
    std::vector<Rec> v = recs(p, nk, c); std::map<std::vector<unsigned>, float> d; std::vector<Rec> u; std::set<std::vector<unsigned>> seen;
    for (auto& e : v) if (seen.insert(e.k).second) { std::vector<unsigned> s(e.k.begin(), e.k.begin() + key1); if (!d.count(s)) d[s] = e.den; e.den = d[s]; u.push_back(e); num[e.k] += exp((double)e.num); den[s][c] = exp((double)e.den); }
    f["/sim/in/c" + n2s(c)] = bin(u);
  }
  std::string image = make_image("", f);
  // sort every chunk
  std::map<std::string, std::string> g;
  int st = tool == T_MERGELEX ? T_SORTLEX : tool == T_MERGEHMM ? T_SORTHMM : T_SORTIBM2;
  for (int c = 0; c < chunks; ++c) {
    Tool s; s.name = names[st]; s.args = {st == T_SORTLEX ? "-l" : "-a", "/sim/in/c" + n2s(c)};
    ToolEnd e = run_tool(s, image, false); need(e, s);
    g["/sim/in/s" + n2s(c)] = e.out;
    auto in = unbin(f["/sim/in/c" + n2s(c)], nk), out = unbin(e.out, nk);
    auto less = [](const Rec& x, const Rec& y) { return x.k < y.k; };
    std::sort(in.begin(), in.end(), less);
    if (bin(in) != e.out) violation("wrong-output", tool_text(s) + ": the sorted table is not the table sorted");
  }
  std::vector<int> order; for (int c = 0; c < chunks; ++c) order.push_back(c);
  Rng r(p.seed * 7 + 5); for (int c = chunks - 1; c > 0; --c) std::swap(order[c], order[r.below(c + 1)]);
  image = make_image(image, g);
  auto merge = [&](const std::vector<std::string>& files, const std::string& img) { Tool m = t; m.args = files; ToolEnd e = run_tool(m, img, false); need(e, m); return e.out; };
  std::vector<std::string> files; for (int c : order) files.push_back("/sim/in/s" + n2s(c));
  std::string out;
  if (par(p, "tree") && chunks > 2) { // in two steps
    size_t h = chunks / 2; std::vector<std::string> a(files.begin(), files.begin() + h), b(files.begin() + h, files.end());
    std::map<std::string, std::string> m; m["/sim/in/m0"] = merge(a, image); m["/sim/in/m1"] = merge(b, image);
    image = make_image(image, m); out = merge({"/sim/in/m0", "/sim/in/m1"}, image);
  } else out = merge(files, image);
  auto v = unbin(out, nk);
  if (v.size() != num.size()) violation("wrong-output", t.name + ": the merged table has " + n2s(v.size()) + " entries instead of " + n2s(num.size()));
  size_t i = 0;
  for (auto& x : num) {
    Rec& e = v[i++]; std::vector<unsigned> s(x.first.begin(), x.first.begin() + key1); double d = 0; for (auto& y : den[s]) d += y.second;
    std::string w = t.name + ": entry"; for (auto y : x.first) w += " " + n2s(y);
    if (e.k != x.first) violation("wrong-output", w + " is missing or out of order");
    if (fabs(e.num - log(x.second)) > 1e-3 || fabs(e.den - log(d)) > 1e-3) violation("wrong-output", w + " has counts " + std::to_string(e.num) + " " + std::to_string(e.den) + " instead of " + std::to_string(log(x.second)) + " " + std::to_string(log(d)));
  }
  probe(p_merge);
}
int p_cut = probe_id("tool-input-damaged"), p_cutok = probe_id("tool-served-damaged-input"), p_cutno = probe_id("tool-refused-damaged-input");
// a program given what a crash or a full disk left of its input files ends
void run_input(const Plan& p) {
  int tool = par(p, "tool");
  static Job j; j = job(p, tool);
  static std::vector<Op> dmg; dmg.clear();
  for (auto& o : p.ops) if (o.code == 100) dmg.push_back(o);
  static std::string image; image = j.image;
  run_phase([] {
    Karena k; g_muted = true;
    vfs_restore(image);
    std::vector<std::string> l;
    for (auto& f : vfs_list("/sim/")) if (!f.compare(0, 8, "/sim/in/") || !f.compare(0, 7, "/sim/w/") || !f.compare(0, 12, "/sim/toy/tm/") || !f.compare(0, 12, "/sim/toy/lm/")) l.push_back(f);
    std::vector<std::string> in; for (auto& f : l) if (!f.compare(0, 8, "/sim/in/")) in.push_back(f);
    if (l.empty()) return;
    for (auto& o : dmg) {
      auto& from = o.t == "in" && !in.empty() ? in : l;
      std::string f = from[o.a % from.size()], d; if (!vfs_get(f, d)) continue;
      size_t cut = d.size() * o.c / 1000;
      sim_eventlog("damage %d at %zu of %zu in %s", (int)o.b, cut, d.size(), f.c_str());
      switch (o.b) {
        case 0: vfs_put(f, d.substr(0, cut)); break;
        case 1: vfs_remove_tree(f); break;
        case 2: vfs_put(f, ""); break;
        case 3: vfs_remove_tree(f); vfs_mkdirs(f); break;
        case 4: vfs_put(f, d.substr(0, cut) + std::string(d.size() - cut, '\0')); break;
      }
      probe(p_cut);
    }
    std::string s = vfs_image(); memcpy(shm->blob, s.data(), s.size()); shm->blob_len = s.size();
  });
  { Karena k; if (shm->blob_len) image.assign(shm->blob, shm->blob_len); }
  for (auto& o : dmg) if (o.s == "stdin") j.t.in = j.t.in.substr(0, j.t.in.size() * o.c / 1000);
  ToolEnd e = run_tool(j.t, image, false);
  if (e.how == T_ABORT) violation("tool-aborted", tool_text(j.t) + " aborts\n" + e.err.substr(0, 1000));
  probe(e.ok() ? p_cutok : p_cutno);
}
void run(const Plan& p) { if (par(p, "mode") == V_MERGE) run_merge(p); else if (par(p, "mode") == V_INPUT) run_input(p); else run_output(p); run_ok(); }

void generate(u64 seed, int variant, Plan& p) {
  Rng r(seed * 977 + variant);
  int mode = variant % 10, only = variant / 10 - 1;   // variant 10*(tool+1): that program alone
  p.par["mode"] = mode;
  p.cfg.disk_short = r.permille(300) ? 200 : 0;
  p.cfg.disk_eintr = r.permille(200) ? 100 : 0;
  p.cfg.net_eintr = 0;
  int nent = r.below(r.permille(800) ? 12 : 60);
  if (mode == V_MERGE) { static const int m[] = {T_MERGELEX, T_MERGEHMM, T_MERGEIBM2}; p.par["tool"] = m[r.below(3)]; p.par["chunks"] = 1 + r.below(r.permille(800) ? 5 : 14); p.par["tree"] = r.permille(300); }
  else { p.par["tool"] = only >= 0 ? only : r.below(N_TOOLS); p.par["opt"] = r.below(64); p.par["opt2"] = r.below(64); }
  int chunks = par(p, "chunks", 1);
  auto key = [&](int n) -> long long { return r.permille(850) ? r.below(n) : r.permille(500) ? 255 + r.below(3) : mode == V_MERGE && r.permille(400) ? 4294967293u + r.below(3) : 70000 + r.below(3); };
  for (int i = 0; i < nent; ++i) {
    Op o; o.code = 1; o.c = r.below(chunks); o.a = key(5) | key(3) << 32; o.b = key(5) | key(3) << 32; o.s = n2s(1 + r.below(500)); o.t = n2s(1 + r.below(5000)); p.ops.push_back(o);
  }
  if (mode == V_MERGE) return;
  int tool = p.par["tool"];
  for (int i = 0, n = 1 + r.below(6); i < n; ++i) { Op o; o.s = sentence(r, false, 4); o.t = sentence(r, true, 4); p.ops.push_back(o); }
  if (mode == V_INPUT) {
    p.cfg.max_access = 300000000ull; p.cfg.over_ok = tool == T_LMW || tool == T_LIW;   // their simplex may take very long
    for (int i = 0, n = r.permille(700) ? 1 : 2; i < n; ++i) { Op o; o.code = 100; o.a = r.below(1000); o.b = r.below(5); o.c = r.below(1001); o.t = r.permille(600) ? "in" : ""; o.s = r.permille(100) ? "stdin" : ""; p.ops.push_back(o); }
    return;
  }
  switch (r.below(6)) {
    case 0: break;
    case 1: if (tool != T_LMW && tool != T_LIW) { p.par["crash0"] = r.below(r.permille(500) ? 12 : 60); if (r.permille(300)) p.par["crash1"] = r.below(20); break; }
    case 2: p.cfg.disk_eio_w = 10 + r.below(300); break;
    case 3: p.cfg.open_w = 50 + r.below(400); break;
    case 4: p.cfg.disk_quota = r.below(r.permille(500) ? 200 : 4000); break;
    case 5: p.cfg.out_fail = 100 + r.below(600); break;
  }
}
void load() {}
struct Reg { Reg() { register_world(World{"tools", generate, run, load}); } } reg;
}
}
