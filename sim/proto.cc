#include "proto.h"
#include <arpa/inet.h>
#include <stdlib.h>
#include <string.h>
namespace sim {
std::string wire_int(int v) { int n = htonl(v); return std::string((char*)&n, 4); }
std::string wire_str(const std::string& s) { return wire_int(s.size()) + s; }
int n_args(int c) {
  switch (c) { case RQ_VERIFY: case RQ_TRAIN: case RQ_ECM: return 2; case RQ_TRANS: case RQ_TRANS_INFO: case RQ_CAT: case RQ_ADD: return 1; }
  return 0;
}
int n_strings(int c) {
  switch (c) { case RQ_VERIFY: case RQ_CAT: case RQ_ADD: return 1; case RQ_TRANS: case RQ_TRANS_INFO: return 2; case RQ_TRAIN: case RQ_ECM: case RQ_RESET: case RQ_PRINT: case RQ_END: return -1; }
  return -2;
}
std::string encode(int code, int uid, const std::string& s, const std::string& t) {
  std::string m = wire_int(code) + wire_int(uid);
  if (n_args(code) >= 1) m += wire_str(s);
  if (n_args(code) >= 2) m += wire_str(t);
  return m;
}
int parse_reply(int code, const std::string& b, std::vector<std::string>& out, size_t& rest) {
  out.clear(); rest = 0;
  int n = n_strings(code);
  size_t o = 0;
  if (n == -2) { rest = b.size(); return 1; }
  auto geti = [&](int& v) { if (b.size() < o + 4) return false; int x; memcpy(&x, b.data() + o, 4); v = ntohl(x); o += 4; return true; };
  if (n == -1) { int v; if (!geti(v)) return 0; out.push_back(std::to_string(v)); rest = b.size() - o; return 1; }
  for (int i = 0; i < n; ++i) {
    int l; if (!geti(l)) return 0;
    if (l < 0) return -1;
    if (b.size() < o + l) return 0;
    out.push_back(b.substr(o, l)); o += l;
  }
  rest = b.size() - o;
  return 1;
}
const char* src_words[] = {"la", "el", "casa", "verde", "roja", "blanca", "perro", "gato", "libro", "mesa", "puerta", "un", "una", "es", "come", "grande", "blanco", "rojo"};
const int n_src_words = sizeof src_words / sizeof *src_words;
const char* trg_words[] = {"the", "house", "green", "red", "white", "dog", "cat", "book", "table", "door", "a", "is", "eats", "big"};
const int n_trg_words = sizeof trg_words / sizeof *trg_words;
static const char* new_words[] = {"ventana", "nubes", "qwx", "azul", "\xc3\xb1" "and\xc3\xba", "12", "3.14", "UNKNOWN_WORD", "camion", "luna,", "(sol)", "Casa"};
std::string sentence(Rng& r, bool target, int maxlen) {
  static const char* nat_s[] = {"la casa verde", "el perro come", "un libro rojo", "la mesa es blanca", "el gato es grande", "una puerta roja"};
  static const char* nat_t[] = {"the green house", "the dog eats", "a red book", "the table is white", "the cat is big", "a red door"};
  if (r.permille(400)) return target ? nat_t[r.below(6)] : nat_s[r.below(6)];
  int n = 1 + r.below(maxlen);
  std::string s;
  for (int i = 0; i < n; ++i) {
    const char* w = r.permille(150) ? new_words[r.below(12)] : target ? trg_words[r.below(n_trg_words)] : src_words[r.below(n_src_words)];
    s += (i ? " " : "") + std::string(w);
  }
  return s;
}
std::string odd_sentence(Rng& r) {
  switch (r.below(8)) {
    case 0: return "";
    case 1: return " ";
    case 2: return "  la   casa ";
    case 3: return "xyzzy";
    case 4: return "\xe2\x82\xac \xc3\xa1\xc3\xa9 la casa";
    case 5: { std::string s; for (int i = 0, n = 8 + r.below(6); i < n; ++i) s += (i ? " " : "") + std::string(src_words[r.below(n_src_words)]); return s; }
    case 6: return "la\tcasa";
    default: return "el perro . ,";
  }
}
// sentences in which some phrases have prescribed translations, well formed or not
std::string constrained_sentence(Rng& r, bool json) {
  auto w = toks(sentence(r, false, 5));
  if (w.empty()) w.push_back("la");
  static const char* forced[] = {"the house", "HOUSE", "table", "", "green dog", " ", "x", "the"};
  auto quote = [](const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; };
  auto join = [&](size_t i, size_t n) { std::string s; for (size_t k = i; k < i + n && k < w.size(); ++k) s += (k > i ? " " : "") + w[k]; return s; };
  std::string text, segs;
  for (size_t i = 0; i < w.size();) {
    size_t n = 1 + r.below(3);
    if (i + n > w.size()) n = w.size() - i;
    if (r.permille(500)) { text += (i ? " " : "") + join(i, n); i += n; continue; }
    std::string src = join(i, n), trg = forced[r.below(8)];
    if (r.permille(100)) src += " " + std::string(src_words[r.below(n_src_words)]);      // not what the sentence says
    if (json) segs += std::string(segs.empty() ? "" : ", ") + (r.permille(50) ? (r.permille(500) ? "7" : "{ \"original\" : 3, \"translation\" : \"x\" }") : "{ \"translation\" : " + quote(trg) + ", \"original\" : " + quote(src) + " }");
    else text += std::string(i ? " " : "") + "<phr_pair_annot><src_segm>" + src + "</src_segm><trg_segm>" + trg + "</trg_segm></phr_pair_annot>";
    i += n;
  }
  if (json) text = "{ \"src_title\" : { \"preprocessed\" : " + quote(join(0, w.size())) + ", \"original\" : \"\" }, \"tex_segmentation\" : [ " + segs + " ] }";
  if (r.permille(120)) {                                    // damaged
    size_t a = r.below(text.size()), n = 1 + r.below(12);
    if (r.permille(300)) text.resize(a); else text.erase(a, n);
  }
  return text;
}
std::vector<std::string> toks(const std::string& s) {
  std::vector<std::string> v; std::string w;
  for (char c : s) if (c == ' ' || c == '\n' || c == '\t') { if (!w.empty()) v.push_back(w); w.clear(); } else w += c;
  if (!w.empty()) v.push_back(w);
  return v;
}
static std::string base_cfg;
static bool loaded;
void load_models() {
  if (loaded) return;
  loaded = true;
  const char* repo = getenv("THOT_REPO") ? getenv("THOT_REPO") : "/repo";
  const char* v = getenv("SIM_VERIF") ? getenv("SIM_VERIF") : "/verif";
  Karena k;
  vfs_load_dir(std::string(v) + "/sim/models/toy", "/sim/toy");
  vfs_load_dir(std::string(v) + "/sim/models/wg", "/sim/wg");
  vfs_load_dir(std::string(repo) + "/examples/ini_files", "/sim/ini");
  std::string d; vfs_get("/sim/ini/standard.ini", d); vfs_put("/sim/share/master.ini", d);
  vfs_get("/sim/toy/server.cfg", base_cfg);
  vfs_mkdirs("/sim/cwd"); vfs_mkdirs("/sim/tmp"); vfs_mkdirs("/sim/lib");
}
static const char* cfg_lines[N_CFG][2] = {
    {"base", ""},
    {"reordering", "-nomon 4\n-W 5\n-S 20\n"},
    {"unsupported-training", "-olp 1 0 1 2 3 0\n"},
    {"weights", "-tmw 1 0.5 1 1 0.3 1 1 1\n-catw 1 2\n-ecw 1 1 1 1 1\n"},
    {"preprocessing", "-sp 1\n"},
    {"narrow-search", "-W 2\n-S 1\n-G 3\n-E 3\n-A 2\n"},
    {"breadth-first", "-be\n-h 4\n"},
    {"no-heuristic", "-h 0\n"},
    {"wordgraph-pruning", "-wgp 1\n-np 5\n"},
    {"more-em-iterations", "-olp 0 0 0.5 3 3 0\n"},
    {"preprocessing-eu", "-sp 5\n"},
    {"interlaced-training", "-olp 0 0 1 2 2 1\n"},
    {"retraining", "-olp 0 0 0.5 2 2 2\n"},
    {"prefixes", "-tm /sim/toy/tm/main/src_trg\n-lm /sim/toy/lm/main/trg.lm\n"},
    {"several-models", ""},
    {"custom-features", "-cf /sim/toy/cf/cf_desc\n-tmw 1 1 1 1 1 1 1 0.0000002\n"},
    {"word-graphs", "-wgh /sim/toy/wg/handler\n"}};
const char* cfg_name(int i) { return cfg_lines[i][0]; }
void install_cfg(int c, int ini) {
  Karena k;
  static const char* inis[] = {"standard", "wer", "ibm2", "legacy", "standard", "standard", "standard", "standard"};
  static const char* mods[][2] = {{"translation_metadata__", "json_translation_metadata__"}, {"incr_phrase_model", "wba_incr_phrase_model"}, {"mira_bleu", "mira_gtm"}, {"mira_bleu", "mira_chrf"}};
  std::string d;
  if (!vfs_get(std::string("/sim/ini/") + inis[ini & 7] + ".ini", d)) harness_error("no ini file");
  if (ini >= 4) {
    auto m = mods[ini & 3]; size_t i = d.find(m[0]);
    if (i == std::string::npos) harness_error("no such module in the ini file");
    d.replace(i, strlen(m[0]), m[1]);
  }
  vfs_put("/sim/share/master.ini", d);
  std::string text, extra = cfg_lines[c % N_CFG][1];
  // an option of the variant replaces the one of the base file
  size_t i = 0;
  while (i < base_cfg.size()) {
    size_t j = base_cfg.find('\n', i); if (j == std::string::npos) j = base_cfg.size();
    std::string line = base_cfg.substr(i, j - i); i = j + 1;
    auto w = toks(line);
    if (!w.empty() && w[0][0] == '-' && ("\n" + extra).find("\n" + w[0] + " ") != std::string::npos) continue;
    text += line + "\n";
  }
  vfs_put("/sim/toy/run.cfg", text + extra);
  std::string name = cfg_lines[c % N_CFG][0];
  if (name == "several-models") {
    for (const char* t : {"tm", "lm"}) {
      std::string main = std::string("/sim/toy/") + t + "/main/", dom = std::string("/sim/toy/") + t + "/dom/";
      for (auto& f : vfs_list(main)) {
        vfs_get(f, d);
        if (f.size() > 7 && f.substr(f.size() - 7) == ".ttable") d = "black cat ||| gato negro ||| 2.00000000 2.00000000\nwindow ||| ventana ||| 3.00000000 1.00000000\n" + d.substr(d.find('\n') + 1);
        vfs_put(dom + f.substr(main.size()), d);
      }
      std::string desc = std::string("/sim/toy/") + t + "/" + t + "_desc"; vfs_get(desc, d);
      std::string line = d.substr(d.find('\n') + 1), add = line;
      for (size_t i; (i = add.find(" main #")) != std::string::npos;) add.replace(i, 5, " dom");
      for (size_t i; (i = add.find("main/")) != std::string::npos;) add.replace(i, 5, "dom/");
      vfs_put(desc, d + add);
    }
  }
  if (name == "custom-features") {
    vfs_put("/sim/toy/cf/cf_desc", "thot cf descriptor\n$(libdir)/dict_feat__phrscoreinfo_factory.so dict/dict cf1\n");
    vfs_put("/sim/toy/cf/dict/dict", "casa ||| house ||| -0.1\ncasa ||| home ||| -0.7\nla mesa ||| the table ||| -0.2\nnubes ||| clouds ||| -0.01\ncamion ||| truck ||| -0.5\nun perro ||| some dog ||| -0.3\n");
  }
  if (name == "word-graphs") {
    std::string h;
    for (auto& f : vfs_list("/sim/wg/")) {
      if (f.substr(f.size() - 4) == ".src") { vfs_get(f, d); h += d.substr(0, d.find('\n')) + " ||| " + f.substr(0, f.size() - 4) + ".wg\n"; }
    }
    vfs_put("/sim/toy/wg/handler", h);
  }
}
// name:size:content of every model file; the order of the entries is not part of what one says
std::string model_files() {
  Karena k;
  std::string out;
  for (auto& f : vfs_list("/sim/toy/")) {
    if (f.compare(0, 12, "/sim/toy/tm/") && f.compare(0, 12, "/sim/toy/lm/")) continue;
    std::string d; vfs_get(f, d);
    u64 g = 0;
    for (size_t i = 0; i < d.size();) {
      size_t j = d.find('\n', i); if (j == std::string::npos) j = d.size();
      u64 l = 0xcbf29ce484222325ull;
      for (; i < j; ++i) l = (l ^ (unsigned char)d[i]) * 0x100000001B3ull;
      l ^= l >> 29; g += l * 0x9E3779B97F4A7C15ull;
      ++i;
    }
    for (unsigned char c : f) g = (g ^ c) * 0x100000001B3ull;
    out += f.substr(9) + ":" + std::to_string(d.size()) + ":" + std::to_string(g) + "\n";
  }
  return out;
}
// the files that are not the same in both
std::string differing_files(const std::string& a, const std::string& b) {
  std::map<std::string, std::string> m[2];
  for (int k = 0; k < 2; ++k) for (auto& l : toks(k ? b : a)) m[k][l.substr(0, l.find(':'))] = l;
  std::string o;
  for (auto& x : m[0]) { auto y = m[1].find(x.first); if (y == m[1].end() || y->second != x.second) o += " " + x.first; }
  for (auto& x : m[1]) if (!m[0].count(x.first)) o += " " + x.first;
  return o;
}
int start_server(bool verbose, const char* cfgfile) {
  int sp = new_proc("server");
  static char cfgname[256]; snprintf(cfgname, sizeof cfgname, "%s", cfgfile);
  spawn("server-main", sp, [sp, verbose] {
    static char a0[] = "thot_server", a1[] = "-c", a3[] = "-v";
    static char* a[] = {a0, a1, cfgname, nullptr, nullptr};
    if (verbose) a[3] = a3;
    int r = sim_run_main("thot_server", verbose ? 4 : 3, a);
    proc_exit(sp, r);
  });
  block_until([sp] { return net_listening(4550) || proc_ended(sp); }, "server start");
  return sp;
}
}  // namespace sim
