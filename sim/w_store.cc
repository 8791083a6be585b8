// The on-disk tables: histories of updates, queries, reopenings, crashes and disk faults
// against a map.  variant = kind + 10 * mode.
#include "sim.h"
#include "tools.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <sstream>
#include "LevelDbPhraseTable.h"
#include "LevelDbNgramTable.h"
#include "IncrLexLevelDbTable.h"
#include "LevelDbDict.h"
#include "FastBdbPhraseTable.h"
#define PhrDictKey PhrDictKeyPlain        // both headers define structures of these names
#define PhrDictValue PhrDictValuePlain
#include "BdbPhraseTable.h"
#undef PhrDictKey
#undef PhrDictValue
using namespace sim;
namespace {
enum Kind { K_PHR, K_NGRAM, K_LEX, K_DICT, K_FBDB, N_KINDS };
enum Mode { M_PLAIN, M_CRASH, M_FAULT, M_CONVERT };
enum Code { C_ADD = 1, C_SRC, C_ST, C_INCR, C_QUERY, C_CHECK, C_REOPEN, C_CLEAR, C_INIT, C_DROP, C_SECOND, C_PRINTLOAD, C_FAST, C_BULK };
typedef std::vector<WordIndex> V;
typedef std::map<std::string, double> Model;
typedef std::vector<std::pair<std::string, double>> Writes;

V phr(const std::string& s) { V v; std::istringstream i(s); unsigned w; while (i >> w) v.push_back(w); return v; }
std::string str(const V& v) { std::string o; for (size_t i = 0; i < v.size(); ++i) o += (i ? " " : "") + std::to_string(v[i]); return o; }
std::string word(unsigned w) { // dictionary entries are strings
  static const char* x[] = {"casa", "la", "house", "the", "\xc3\xa1rbol", "a|||b", "12", "%", "!", "~~", "casa1", "c", "Casa", "cas"};
  return w < 14 ? x[w] : "w" + std::to_string(w);
}
std::vector<std::string> words(const V& v) { std::vector<std::string> o; for (auto w : v) o.push_back(word(w)); return o; }
std::string X(const std::string& s, const std::string& t) { return "X:" + s + ">" + t; }
bool found(const Model& m, const std::string& c) { return c == "G:" || m.count(c); }   // the empty history always has a count
double at(const Model& m, const std::string& c) { auto i = m.find(c); return i == m.end() ? 0 : i->second; }
bool has(const Model& m, const std::string& c) { return m.count(c); }
std::string cat(const std::string& s, const std::string& t) { return s.empty() ? t : s + " " + t; }

// values of the plan: small integers as such, any other float by its bits
enum : long long { BITS = 1ll << 40 };
double val(long long a) { if (a < BITS) return a; unsigned b = (unsigned)a; float f; memcpy(&f, &b, 4); return f; }
long long enc(float f) { unsigned b; memcpy(&b, &f, 4); return BITS | b; }
// what an operation writes, in order
Writes writes(int kind, const Op& o, const Model& m) {
  Writes w;
  double a = val(o.a), b = val(o.b);
  switch (kind) {
    case K_PHR:
      if (o.code == C_ADD) w = {{"S:" + o.s, a}, {"T:" + o.t, b}, {X(o.s, o.t), b}};
      if (o.code == C_SRC) w = {{"S:" + o.s, a}};
      if (o.code == C_ST) w = {{X(o.s, o.t), a}};
      if (o.code == C_INCR) w = {{"S:" + o.s, at(m, "S:" + o.s) + a}, {"T:" + o.t, at(m, "T:" + o.t) + a}, {X(o.s, o.t), at(m, X(o.s, o.t)) + a}};
      break;
    case K_NGRAM:
      if (o.code == C_ADD) w = {{"G:" + o.s, a}, {"G:" + cat(o.s, o.t), b}};
      if (o.code == C_SRC) w = {{"G:" + o.s, a}};
      if (o.code == C_ST) w = {{"G:" + cat(o.s, o.t), a}};
      if (o.code == C_INCR) w = {{"G:" + cat(o.s, o.t), at(m, "G:" + cat(o.s, o.t)) + a}};
      if (o.code == C_INCR && phr(o.s).empty()) w.push_back({"G:", at(m, "G:") + a});
      break;
    case K_LEX:
      if (o.code == C_ADD) w = {{"S:" + o.s, b}, {X(o.s, o.t), a}};
      if (o.code == C_SRC) w = {{"S:" + o.s, a}};
      if (o.code == C_ST) w = {{X(o.s, o.t), a}};
      break;
    case K_DICT:
      if (o.code == C_ADD) w = {{X(o.s, o.t), a / 16.0}};
      break;
    case K_FBDB:
      if (o.code == C_INCR) w = {{X(o.s, o.t), at(m, X(o.s, o.t)) + a}, {"S:" + o.s, at(m, "S:" + o.s) + a}, {"T:" + o.t, at(m, "T:" + o.t) + a}};
      break;
  }
  if (o.code == C_BULK) // many entries at once
    for (int i = 0; i < o.b; ++i) {
      Op p = o; p.code = kind == K_FBDB ? C_INCR : C_ADD; p.a = p.b = 1 + (o.a + i) % 97;
      if (kind == K_LEX) p.t = std::to_string(3 + (o.a + i * 7) % 5000); else p.t = kind == K_NGRAM ? std::to_string(3 + (o.a + i * 7) % 70000) : cat(o.t, std::to_string(3 + (o.a + i * 7) % 70000));
      Model n; for (auto& x : {X(p.s, p.t), "S:" + p.s, "T:" + p.t}) if (has(m, x)) n[x] = at(m, x);
      for (auto& x : w) n[x.first] = x.second;
      for (auto& x : writes(kind, p, n)) w.push_back(x);
    }
  return w;
}
bool wipes(int c) { return c == C_CLEAR || c == C_INIT || c == C_DROP; }

void fail(const std::string& when, const std::string& what) { violation("wrong-content", when + ": " + what); }
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.9g", d); return b; }
bool close(double a, double b) { return a == b || fabs(a - b) <= 2e-5 * std::max(fabs(a), fabs(b)) + 1e-9; }
bool close_lp(double a, double b) { return a == b || fabs(a - b) <= 1e-4 * (1 + std::max(fabs(a), fabs(b))) || (a < -1e15 && b < -1e15) || (std::isinf(a) && std::isinf(b)); }

struct Store {
  virtual ~Store() {}
  virtual bool init(const std::string&) = 0;
  virtual bool load(const std::string&) = 0;
  virtual bool drop() = 0;
  virtual void clear() = 0;
  virtual void run(const Op&) = 0;
  virtual double get(const std::string& cell, bool& found) = 0;
  virtual void verify(const Model&, const std::string& s, const std::string& t, const std::string& when) = 0;  // queries about s and t
  virtual void all(const Model&, const std::string& when) {}        // size, iteration
};
// table of candidates a query for t returns
void compare(const std::map<std::string, std::pair<double, double>>& want, const std::map<std::string, std::pair<double, double>>& got, const std::string& when, const std::string& what) {
  for (auto& w : want) {
    auto g = got.find(w.first);
    if (g == got.end()) fail(when, what + " lacks " + w.first);
    if (!close(w.second.first, g->second.first) || !close(w.second.second, g->second.second)) fail(when, what + ": entry " + w.first + " is (" + num(g->second.first) + "," + num(g->second.second) + ") instead of (" + num(w.second.first) + "," + num(w.second.second) + ")");
  }
  for (auto& g : got) if (!want.count(g.first)) fail(when, what + " has " + g.first + " too");
}
void compare_nbest(std::vector<std::pair<double, std::string>> want, std::vector<std::pair<double, std::string>> got, int n, const std::string& when, const std::string& what) {
  auto desc = [](const std::pair<double, std::string>& a, const std::pair<double, std::string>& b) { return a.first > b.first; };
  std::stable_sort(want.begin(), want.end(), desc);
  size_t m = n >= 0 ? std::min<size_t>(n, want.size()) : want.size();
  if (got.size() != m) fail(when, what + " has " + std::to_string(got.size()) + " entries instead of " + std::to_string(m));
  std::set<std::string> seen;
  for (size_t i = 0; i < m; ++i) {
    if (!close_lp(got[i].first, want[i].first)) fail(when, what + ": entry " + std::to_string(i) + " has score " + num(got[i].first) + " instead of " + num(want[i].first));
    bool ok = false;
    for (auto& w : want) if (w.second == got[i].second && close_lp(w.first, got[i].first)) ok = true;
    if (!ok || !seen.insert(got[i].second).second) fail(when, what + ": unexpected entry " + got[i].second + " with score " + num(got[i].first));
  }
}
template <class NT, class F> std::vector<std::pair<double, std::string>> take(NT& n, F f) {
  std::vector<std::pair<double, std::string>> r;
  for (auto i = n.begin(); i != n.end(); ++i) r.push_back({(double)i->first, f(i->second)});
  return r;
}
void chk(const std::string& when, const std::string& what, double got, bool gf, double want, bool wf) {
  if (gf != wf) fail(when, what + (gf ? " is found (" + num(got) + ")" : " is not found") + (wf ? ", it should be " + num(want) : ", it was never stored"));
  if (wf && !close(got, want)) fail(when, what + " is " + num(got) + " instead of " + num(want));
}
void exact(const std::string& when, const std::string& what, double got, bool gf, double want, bool wf) {
  chk(when, what, got, gf, want, wf);
  if (wf && got != want) fail(when, what + " is " + num(got) + " instead of " + num(want));
}
void chk(const std::string& when, const std::string& what, double got, double want) { if (!close(got, want)) fail(when, what + " is " + num(got) + " instead of " + num(want)); }

struct Phr : Store {
  LevelDbPhraseTable t;
  bool init(const std::string& p) override { return t.init(p) == THOT_OK; }
  bool load(const std::string& p) override { return t.load(p) == THOT_OK; }
  bool drop() override { return t.drop() == THOT_OK; }
  void clear() override { t.clear(); }
  void run(const Op& o) override {
    V s = phr(o.s), u = phr(o.t);
    if (o.code == C_ADD) t.addTableEntry(s, u, PhrasePairInfo(Count(val(o.a)), Count(val(o.b))));
    if (o.code == C_SRC) t.addSrcInfo(s, Count(val(o.a)));
    if (o.code == C_ST) t.addSrcTrgInfo(s, u, Count(val(o.a)));
    if (o.code == C_INCR) t.incrCountsOfEntry(s, u, Count(val(o.a)));
  }
  double get(const std::string& c, bool& f) override {
    if (c[0] == 'S') return t.getSrcInfo(phr(c.substr(2)), f).get_c_s();
    if (c[0] == 'T') return t.getTrgInfo(phr(c.substr(2)), f).get_c_s();
    size_t g = c.find('>'); return t.getSrcTrgInfo(phr(c.substr(2, g - 2)), phr(c.substr(g + 1)), f).get_c_st();
  }
  void verify(const Model& m, const std::string& s, const std::string& u, const std::string& when) override {
    V sv = phr(s), uv = phr(u); bool f;
    std::string S = "S:" + s, T = "T:" + u, Y = X(s, u);
    double g = t.getSrcInfo(sv, f).get_c_s(); chk(when, "count of the source phrase [" + s + "]", g, f, at(m, S), has(m, S));
    g = t.getTrgInfo(uv, f).get_c_s(); chk(when, "count of the target phrase [" + u + "]", g, f, at(m, T), has(m, T));
    g = t.getSrcTrgInfo(sv, uv, f).get_c_st(); chk(when, "count of the pair [" + s + "|" + u + "]", g, f, at(m, Y), has(m, Y));
    chk(when, "cSrc [" + s + "]", t.cSrc(sv).get_c_s(), at(m, S)); chk(when, "cTrg [" + u + "]", t.cTrg(uv).get_c_s(), at(m, T)); chk(when, "cSrcTrg [" + s + "|" + u + "]", t.cSrcTrg(sv, uv).get_c_st(), at(m, Y));
    PhrasePairInfo i = t.infSrcTrg(sv, uv, f);
    if (f != (has(m, S) && has(m, Y))) fail(when, "the pair [" + s + "|" + u + "] is " + (f ? "" : "not ") + "found");
    if (f) { chk(when, "first count of [" + s + "|" + u + "]", i.first.get_c_s(), at(m, S)); chk(when, "second count of [" + s + "|" + u + "]", i.second.get_c_st(), at(m, Y)); }
    double sm = PHRASE_PROB_SMOOTH;
    chk(when, "p(" + u + "|" + s + ")", (double)t.pTrgGivenSrc(sv, uv), at(m, Y) > 0 && at(m, S) > 0 ? at(m, Y) / at(m, S) : sm);
    chk(when, "p(" + s + "|" + u + ")", (double)t.pSrcGivenTrg(sv, uv), at(m, Y) > 0 && at(m, T) > 0 ? at(m, Y) / at(m, T) : sm);
    std::map<std::string, std::pair<double, double>> want, got; std::vector<std::pair<double, std::string>> wn; bool any = false;
    for (auto& c : m) if (c.first[0] == 'X' && c.first.substr(c.first.find('>') + 1) == u) {
      any = true; std::string q = c.first.substr(2, c.first.find('>') - 2);
      if (has(m, "S:" + q) && at(m, "S:" + q) != 0 && c.second != 0) { want[q] = {at(m, "S:" + q), c.second}; wn.push_back({log(c.second / at(m, T)), q}); }
    }
    LevelDbPhraseTable::SrcTableNode n;
    f = t.getEntriesForTarget(uv, n);
    if (f != any) fail(when, "translations of [" + u + "] are " + (f ? "" : "not ") + "found");
    for (auto& e : n) got[str(e.first)] = {e.second.first.get_c_s(), e.second.second.get_c_st()};
    compare(want, got, when, "list of translations of [" + u + "]");
    if (!has(m, T) || at(m, T) == 0) return;
    for (int N : {-1, 0, 1, 2}) {
      NbestTableNode<PhraseTransTableNodeData> nb; t.getNbestForTrg(uv, nb, N);
      compare_nbest(wn, take(nb, [](const V& v) { return str(v); }), N, when, "best translations of [" + u + "]");
    }
  }
  void all(const Model& m, const std::string& when) override {
    std::map<std::string, std::pair<double, double>> want, got;
    for (auto& c : m) {
      std::string k; if (c.first[0] == 'S') k = cat(std::to_string(UNUSED_WORD), c.first.substr(2)); else if (c.first[0] == 'T') k = c.first.substr(2);
      else { size_t g = c.first.find('>'); k = cat(cat(c.first.substr(g + 1), std::to_string(UNUSED_WORD)), c.first.substr(2, g - 2)); }
      want[k] = {c.second, 0};
    }
    for (auto i = t.begin(); i != t.end(); i++) { auto x = *i; if (!got.insert({str(x.first), {(double)x.second, 0}}).second) fail(when, "the entry " + str(x.first) + " is visited twice"); }
    compare(want, got, when, "content of the table");
    chk(when, "size", t.size(), want.size());
  }
};
struct Ngr : Store {
  LevelDbNgramTable t;
  bool init(const std::string& p) override { return t.init(p) == THOT_OK; }
  bool load(const std::string& p) override { return t.load(p.c_str()) == THOT_OK; }
  bool drop() override { return t.drop() == THOT_OK; }
  void clear() override { t.clear(); }
  static WordIndex last(const Op& o) { V v = phr(o.t); return v.empty() ? 3 : v[0]; }
  void run(const Op& o) override {
    V s = phr(o.s);
    if (o.code == C_ADD) { im_pair<Count, Count> i; i.first = Count(val(o.a)); i.second = Count(val(o.b)); t.addTableEntry(s, last(o), i); }
    if (o.code == C_SRC) t.addSrcInfo(s, Count(val(o.a)));
    if (o.code == C_ST) t.addSrcTrgInfo(s, last(o), Count(val(o.a)));
    if (o.code == C_INCR) t.incrCountsOfEntryLog(s, last(o), LogCount(log(val(o.a))));
  }
  double get(const std::string& c, bool& f) override { return t.getSrcInfo(phr(c.substr(2)), f).get_c_s(); }
  void verify(const Model& m, const std::string& s, const std::string& u, const std::string& when) override {
    V sv = phr(s); WordIndex w = phr(u).empty() ? 3 : phr(u)[0]; bool f;
    std::string S = "G:" + s, Y = "G:" + cat(s, u);
    double g = t.getSrcInfo(sv, f).get_c_s(); chk(when, "count of [" + s + "]", g, f, at(m, S), s.empty() || has(m, S));
    g = t.getSrcTrgInfo(sv, w, f).get_c_st(); chk(when, "count of [" + s + "|" + u + "]", g, f, at(m, Y), has(m, Y));
    chk(when, "cSrc [" + s + "]", t.cSrc(sv).get_c_s(), at(m, S)); chk(when, "cSrcTrg [" + s + "|" + u + "]", t.cSrcTrg(sv, w).get_c_st(), at(m, Y));
    if (at(m, S) > 0) chk(when, "lcSrc [" + s + "]", (double)(float)t.lcSrc(sv), log(at(m, S)));
    im_pair<Count, Count> i = t.infSrcTrg(sv, w, f);
    bool sf = s.empty() || has(m, S);
    if (f != (sf && has(m, Y))) fail(when, "the entry [" + s + "|" + u + "] is " + (f ? "" : "not ") + "found");
    if (f) { chk(when, "first count of [" + s + "|" + u + "]", i.first.get_c_s(), at(m, S)); chk(when, "second count of [" + s + "|" + u + "]", i.second.get_c_st(), at(m, Y)); }
    chk(when, "p(" + u + "|" + s + ")", (double)t.pTrgGivenSrc(sv, w), at(m, Y) > 0 && at(m, S) > 0 ? at(m, Y) / at(m, S) : 0);
    std::map<std::string, std::pair<double, double>> want, got; std::vector<std::pair<double, std::string>> wn;
    std::map<std::string, std::pair<double, double>> want2, got2; std::vector<std::pair<double, std::string>> wn2; double ct = 0;
    for (auto& c : m) {
      V v = phr(c.first.substr(2)); if (v.size() < 2) continue;
      V p(v.begin(), v.end() - 1);
      if (p == sv && c.second != 0) { want[std::to_string(v.back())] = {at(m, S), c.second}; wn.push_back({log(c.second) - log(at(m, S)), std::to_string(v.back())}); }
      if (v.back() == w) { ct += c.second; double ps = at(m, "G:" + str(p)); want2[str(p)] = {ps, c.second}; wn2.push_back({log(c.second) - log(ps), str(p)}); }
    }
    if (!sv.empty()) {
      LevelDbNgramTable::TrgTableNode n; f = t.getEntriesForSource(sv, n);
      for (auto& e : n) got[std::to_string(e.first)] = {e.second.first.get_c_s(), e.second.second.get_c_st()};
      compare(want, got, when, "list of continuations of [" + s + "]");
      if (f != !want.empty()) fail(when, "continuations of [" + s + "] are " + (f ? "" : "not ") + "found");
      if (at(m, S) > 0) { NbestTableNode<WordIndex> nb; t.getNbestForSrc(sv, nb); compare_nbest(wn, take(nb, [](WordIndex x) { return std::to_string(x); }), -1, when, "best continuations of [" + s + "]"); }
    }
    LevelDbNgramTable::SrcTableNode n2; f = t.getEntriesForTarget(w, n2);
    for (auto& e : n2) got2[str(e.first)] = {e.second.first.get_c_s(), e.second.second.get_c_st()};
    compare(want2, got2, when, "list of histories of [" + u + "]");
    if (f != !want2.empty()) fail(when, "histories of [" + u + "] are " + (f ? "" : "not ") + "found");
    chk(when, "count of [" + u + "] after any history", t.cTrg(w).get_c_s(), ct);
    if (at(m, Y) > 0 && ct > 0) chk(when, "p(" + s + "|" + u + ")", (double)t.pSrcGivenTrg(sv, w), at(m, Y) / ct);
    bool zero = false; for (auto& e : want2) if (e.second.first <= 0 || e.second.second <= 0) zero = true;
    if (!zero) for (int N : {-1, 0, 1, 2}) { NbestTableNode<V> nb; t.getNbestForTrg(w, nb, N); compare_nbest(wn2, take(nb, [](const V& v) { return str(v); }), N, when, "best histories of [" + u + "]"); }
  }
  void all(const Model& m, const std::string& when) override {
    std::map<std::string, std::pair<double, double>> want, got;
    for (auto& c : m) if (c.first != "G:") want[c.first.substr(2)] = {c.second, 0};
    for (auto i = t.begin(); i != t.end(); i++) {
      auto x = *i; std::string k = str(x.first);
      if (t.vectorToKey(x.first) == nullkey()) continue;
      if (!got.insert({k, {x.second.get_c_s(), 0}}).second) fail(when, "the entry " + k + " is visited twice");
    }
    compare(want, got, when, "content of the table");
    size_t z = t.size();
    if (z != want.size() && z != want.size() + 1) fail(when, "size is " + std::to_string(z) + " with " + std::to_string(want.size()) + " entries");
  }
  std::string nullkey() { struct A : LevelDbNgramTable { static std::string k(LevelDbNgramTable& x) { return (x.*(&A::getDbNullKey))(); } }; return A::k(t); }
};
struct Lex : Store {
  IncrLexLevelDbTable t;
  bool init(const std::string& p) override { return t.init(p.c_str()) == THOT_OK; }
  bool load(const std::string& p) override { return t.load(p.c_str()) == THOT_OK; }
  bool drop() override { return t.drop() == THOT_OK; }
  void clear() override { t.clear(); }
  static WordIndex w(const std::string& s) { V v = phr(s); return v.empty() ? 3 : v[0]; }
  void run(const Op& o) override {
    if (o.code == C_ADD) t.setLexNumDen(w(o.s), w(o.t), val(o.a), val(o.b));
    if (o.code == C_SRC) t.setLexDenom(w(o.s), val(o.a));
    if (o.code == C_ST) t.setLexNumer(w(o.s), w(o.t), val(o.a));
  }
  double get(const std::string& c, bool& f) override {
    if (c[0] == 'S') return t.getLexDenom(w(c.substr(2)), f);
    size_t g = c.find('>'); return t.getLexNumer(w(c.substr(2, g - 2)), w(c.substr(g + 1)), f);
  }
  void verify(const Model& m, const std::string& s, const std::string& u, const std::string& when) override {
    bool f; double g = t.getLexDenom(w(s), f); exact(when, "denominator of [" + s + "]", g, f, at(m, "S:" + s), has(m, "S:" + s));
    g = t.getLexNumer(w(s), w(u), f); exact(when, "numerator of [" + s + "|" + u + "]", g, f, at(m, X(s, u)), has(m, X(s, u)));
    std::map<std::string, std::pair<double, double>> want, got;
    for (auto& c : m) if (c.first[0] == 'X' && c.first.substr(c.first.find('>') + 1) == u) want[c.first.substr(2, c.first.find('>') - 2)] = {0, 0};
    std::set<WordIndex> ts; f = t.getTransForTarget(w(u), ts);
    for (auto x : ts) got[std::to_string(x)] = {0, 0};
    compare(want, got, when, "set of translations of [" + u + "]");
    if (f != !want.empty()) fail(when, "translations of [" + u + "] are " + (f ? "" : "not ") + "found");
  }
};
struct Dic : Store {
  LevelDbDict t;
  bool init(const std::string& p) override { return t.init(p) == THOT_OK; }
  bool load(const std::string& p) override { return t.load(p) == THOT_OK; }
  bool drop() override { return t.drop() == THOT_OK; }
  void clear() override { t.clear(); }
  void run(const Op& o) override { if (o.code == C_ADD) t.addDictEntry(words(phr(o.s)), words(phr(o.t)), o.a / 16.0); }
  double get(const std::string& c, bool& f) override { size_t g = c.find('>'); return (double)t.getScore(words(phr(c.substr(2, g - 2))), words(phr(c.substr(g + 1))), f); }
  static std::string join(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += "/" + x; return o; }
  void verify(const Model& m, const std::string& s, const std::string& u, const std::string& when) override {
    bool f; double g = (double)t.getScore(words(phr(s)), words(phr(u)), f); chk(when, "score of [" + s + "|" + u + "]", g, f, at(m, X(s, u)), has(m, X(s, u)));
    std::map<std::string, std::pair<double, double>> want, got;
    for (auto& c : m) if (c.first.substr(2, c.first.find('>') - 2) == s) want[join(words(phr(c.first.substr(c.first.find('>') + 1))))] = {0, 0};
    std::vector<std::vector<std::string>> o; f = t.getTransOptsForSource(words(phr(s)), o);
    for (auto& v : o) if (!got.insert({join(v), {0, 0}}).second) fail(when, "translation listed twice for [" + s + "]");
    compare(want, got, when, "list of translations of [" + s + "]");
    if (f != !want.empty()) fail(when, "translations of [" + s + "] are " + (f ? "" : "not ") + "found");
  }
  void all(const Model& m, const std::string& when) override { chk(when, "size", t.size(), m.size()); }
};
void fast_search(FastBdbPhraseTable& t) { t.enableFastSearch(); }
void fast_search(BdbPhraseTable&) {}
template <class Tab> struct Fbd : Store {
  Tab t;
  bool init(const std::string& p) override { return t.init(p.c_str()) == THOT_OK; }
  bool load(const std::string& p) override { return t.init(p.c_str()) == THOT_OK; }
  bool drop() override { return true; }
  void clear() override { t.clear(); }
  void run(const Op& o) override {
    if (o.code == C_INCR) t.incrCountsOfEntry(phr(o.s), phr(o.t), Count(val(o.a)));
    if (o.code == C_FAST) fast_search(t);
  }
  double get(const std::string& c, bool& f) override {
    if (c[0] == 'S') return t.getSrcInfo(phr(c.substr(2)), f).get_c_s();
    if (c[0] == 'T') return t.getTrgInfo(phr(c.substr(2)), f).get_c_s();
    size_t g = c.find('>'); return t.getSrcTrgInfo(phr(c.substr(2, g - 2)), phr(c.substr(g + 1)), f).get_c_st();
  }
  void verify(const Model& m, const std::string& s, const std::string& u, const std::string& when) override {
    V sv = phr(s), uv = phr(u); bool f;
    std::string S = "S:" + s, T = "T:" + u, Y = X(s, u);
    double g = t.getSrcInfo(sv, f).get_c_s(); chk(when, "count of the source phrase [" + s + "]", g, f, at(m, S), has(m, S));
    g = t.getTrgInfo(uv, f).get_c_s(); chk(when, "count of the target phrase [" + u + "]", g, f, at(m, T), has(m, T));
    g = t.getSrcTrgInfo(sv, uv, f).get_c_st(); chk(when, "count of the pair [" + s + "|" + u + "]", g, f, at(m, Y), has(m, Y));
    double sm = PHRASE_PROB_SMOOTH;
    chk(when, "p(" + u + "|" + s + ")", (double)t.pTrgGivenSrc(sv, uv), at(m, Y) > 0 && at(m, S) > 0 ? at(m, Y) / at(m, S) : sm);
    chk(when, "p(" + s + "|" + u + ")", (double)t.pSrcGivenTrg(sv, uv), at(m, Y) > 0 && at(m, T) > 0 ? at(m, Y) / at(m, T) : sm);
    std::map<std::string, std::pair<double, double>> want, got; std::vector<std::pair<double, std::string>> wn;
    for (auto& c : m) if (c.first[0] == 'X' && c.first.substr(c.first.find('>') + 1) == u) { std::string q = c.first.substr(2, c.first.find('>') - 2); want[q] = {at(m, T), c.second}; wn.push_back({log(c.second / at(m, T)), q}); }
    typename Tab::SrcTableNode n; f = t.getEntriesForTarget(uv, n);
    for (auto& e : n) got[str(e.first)] = {e.second.first.get_c_s(), e.second.second.get_c_st()};
    compare(want, got, when, "list of translations of [" + u + "]");
    if (f != !want.empty()) fail(when, "translations of [" + u + "] are " + (f ? "" : "not ") + "found");
    if (!want.empty()) for (int N : {-1, 0, 1, 2}) { NbestTableNode<PhraseTransTableNodeData> nb; t.getNbestForTrg(uv, nb, N); compare_nbest(wn, take(nb, [](const V& v) { return str(v); }), N, when, "best translations of [" + u + "]"); }
  }
};
bool plain_bdb;
Store* make(int k) { switch (k) { case K_PHR: return new Phr; case K_NGRAM: return new Ngr; case K_LEX: return new Lex; case K_DICT: return new Dic; default: if (plain_bdb) return new Fbd<BdbPhraseTable>; return new Fbd<FastBdbPhraseTable>; } }

long long par(const Plan& p, const char* n, long long d = 0) { auto it = p.par.find(n); return it == p.par.end() ? d : it->second; }
std::string op_name(const Op& o) {
  static const char* n[] = {"?", "add entry", "set source count", "set pair count", "increase counts", "query", "check", "reopen", "clear", "init", "drop and load", "open twice", "print and load", "enable fast search", "add many"};
  return std::string(n[o.code]) + " [" + o.s + "|" + o.t + "] " + num(val(o.a)) + " " + num(val(o.b));
}
const char* PATH = "/sim/db/table";
const char* CONV = "/sim/db/conv";

int p_reopen = probe_id("store-reopened"), p_inflight = probe_id("store-crash-inside-an-update"), p_inflight_new = probe_id("store-crashed-update-partly-durable"), p_recover = probe_id("store-recovered-after-crash"),
    p_lock = probe_id("store-second-open-refused"), p_clear = probe_id("store-cleared"), p_wipecrash = probe_id("store-crash-inside-clear"), p_faultdiv = probe_id("store-write-lost-by-disk-fault"), p_crashopen = probe_id("store-crash-inside-open"), p_faultopen = probe_id("store-open-failed-by-fault"), p_readlost = probe_id("store-lookup-lost-by-read-error");

struct Ctl { u64 started, completed, opened; };
Ctl& ctl() { return *(Ctl*)(shm->blob + BLOB_MAX - 256); }

Writes query_pairs(const Plan& p) { Writes w; return w; }
void full(Store& st, const Plan& p, const Model& m, const std::string& when) {
  // every pair of phrases the plan mentions close together, and the whole content
  std::set<std::pair<std::string, std::string>> done;
  std::vector<std::string> ss, ts;
  for (auto& o : p.ops) if (o.code <= C_QUERY || o.code == C_BULK) if (done.insert({o.s, o.t}).second) {
    ss.push_back(o.s); ts.push_back(o.t);
    if (o.code != C_BULK) st.verify(m, o.s, o.t, when);
  }
  for (size_t i = 0; i + 1 < ss.size(); i += 2) if (done.insert({ss[i], ts[i + 1]}).second) st.verify(m, ss[i], ts[i + 1], when);
  for (auto& c : m) { bool f; double g = st.get(c.first, f); chk(when, "cell " + c.first, g, f, c.second, true); }
  st.all(m, when);
  state_seen(std::hash<std::string>()(std::to_string(m.size()) + p.world) ^ m.size());
}
void die_if_exited() {}

// executes ops[from..); the model is updated as operations complete
void execute(const Plan& p, int kind, Store*& st, Model& m, size_t from, bool faulty, std::map<std::string, std::set<double>>* cand) {
  const double ABSENT = -12345; bool weak = par(p, "weak");
  auto candidates = [&](const Writes& w) {
    if (!cand) return;
    for (auto& x : w) { auto& c = (*cand)[x.first]; if (c.empty()) c.insert(found(m, x.first) ? at(m, x.first) : ABSENT); if (weak && x.first != "G:") c.insert(ABSENT); if (weak) c.insert(0); }
  };
  for (size_t i = from; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    std::string when = "operation " + std::to_string(i) + " (" + op_name(o) + ")";
    sim_eventlog("%s", when.c_str());
    ctl().started = i + 1;
    Writes w = writes(kind, o, m);
    candidates(w);
    switch (o.code) {
      case C_ADD: case C_SRC: case C_ST: case C_INCR: case C_FAST: st->run(o); break;
      case C_BULK: {
        for (int k = 0; k < o.b; ++k) {
          Op q = o; q.code = kind == K_FBDB ? C_INCR : C_ADD; q.a = q.b = 1 + (o.a + k) % 97;
          if (kind == K_LEX) q.t = std::to_string(3 + (o.a + k * 7) % 5000); else q.t = kind == K_NGRAM ? std::to_string(3 + (o.a + k * 7) % 70000) : cat(o.t, std::to_string(3 + (o.a + k * 7) % 70000));
          st->run(q);
        }
        break;
      }
      case C_QUERY: if (!faulty) { if (par(p, "readers")) { std::vector<Fiber*> f; int pr = cur_proc(); for (int r = 0; r < 2; ++r) f.push_back(spawn("reader", pr, [&, r] { st->verify(m, o.s, o.t, when); })); join_all(f); } else st->verify(m, o.s, o.t, when); } break;
      case C_CHECK: if (faulty && par(p, "readfail")) { // reads fail: a lookup may find nothing, but never something that was not stored
          cfg.disk_eio_r = par(p, "readfail"); cfg.disk_open = par(p, "readfail") / 2;
          std::set<std::string> cells; for (auto& x : m) cells.insert(x.first); for (auto& x : *cand) cells.insert(x.first);
          for (auto& x : cells) {
            bool f; double g = st->get(x, f); bool ok = !f || (has(m, x) && close(g, at(m, x)));
            auto c = cand->find(x); if (c != cand->end()) for (double y : c->second) if (close(y, g)) ok = true;
            if (kind == K_NGRAM && x == "G:") ok = true;
            if (!f && has(m, x)) probe(p_readlost);
            if (!ok) violation("wrong-content", when + ": while the disk cannot be read, " + x + " is " + num(g) + ", which nobody stored");
          }
          cfg.disk_eio_r = cfg.disk_open = 0;
        }
        if (!faulty) full(*st, p, m, when); break;
      case C_REOPEN: {
        if (o.a & 1) { delete st; st = nullptr; st = make(kind); }
        bool ok = st->load(PATH);
        if (!ok && faulty) { // give it another chance without faults
          probe(p_faultopen);
          cfg.disk_eio_w = cfg.disk_open = cfg.disk_sync = cfg.disk_meta = cfg.disk_short = cfg.disk_eio_r = 0; cfg.disk_quota = -1;
          delete st; st = make(kind); ok = st->load(PATH);
          if (!ok) violation("unusable", when + ": the table cannot be opened after a failed attempt, although the disk works again\n" + proc(cur_proc()).err);
        }
        if (!ok) violation("unusable", when + ": the table cannot be opened\n" + proc(cur_proc()).err);
        probe(p_reopen);
        break;
      }
      case C_CLEAR: if (kind != K_FBDB) { st->clear(); m.clear(); probe(p_clear); } break;
      case C_INIT: if (!st->init(PATH)) violation("unusable", when + ": cannot be initialised\n" + proc(cur_proc()).err); if (kind != K_FBDB) m.clear(); probe(p_clear); break;
      case C_DROP: if (kind != K_FBDB) { if (!st->drop()) violation("unusable", when + ": fails"); m.clear(); if (kind == K_LEX ? !st->init(PATH) : !st->load(PATH)) violation("unusable", when + ": cannot be loaded again"); } break;
      case C_SECOND: if (!faulty && kind != K_FBDB && kind != K_LEX) {
        Store* b = make(kind);
        if (b->load(PATH)) violation("shared-open", when + ": the table was opened twice at the same time");
        probe(p_lock);
        delete b;
        break;
      }
      case C_PRINTLOAD: if (kind == K_LEX && !faulty) {
        Lex* l = (Lex*)st; vfs_remove_tree("/sim/db/copy_ldb_hmm_lexnd");
        if (l->t.print("/sim/db/copy") != THOT_OK) violation("wrong-content", when + ": cannot be printed");
        Lex c;
        if (!c.load("/sim/db/copy")) violation("wrong-content", when + ": the printed table cannot be loaded");
        for (auto& x : m) if (x.first[0] == 'X') {
          bool f; double g = c.get(x.first, f); chk(when, "in the copy, " + x.first, g, f, x.second, true);
          std::string s = x.first.substr(2, x.first.find('>') - 2), u = x.first.substr(x.first.find('>') + 1);
          g = c.get("S:" + s, f); chk(when, "in the copy, denominator of [" + s + "]", g, f, at(m, "S:" + s), true);
          std::set<WordIndex> a, b; l->t.getTransForTarget(Lex::w(u), a); c.t.getTransForTarget(Lex::w(u), b); if (a != b) fail(when, "the copy has other translations of [" + u + "]");
        }
        c.drop(); vfs_remove_tree("/sim/db/copy.hmm_lexnd");
        break;
      }
    }
    for (auto& x : w) { m[x.first] = x.second; if (cand) (*cand)[x.first].insert(x.second); }
    ctl().completed = i + 1;
    ++shm->ops_done;
  }
}
std::string model_text(const Model& m) { std::string o; for (auto& x : m) { char b[64]; snprintf(b, sizeof b, "%.17g\n", x.second); o += x.first + "\n" + b; } return o; }
Model model_parse(const std::string& s) { Model m; std::istringstream i(s); std::string k, v; while (getline(i, k) && getline(i, v)) m[k] = strtod(v.c_str(), 0); return m; }
void in_proc(std::function<void()> fn) {
  int pr = new_proc("store");
  Fiber* f = spawn("main", pr, fn);
  join_all({f});
  if (proc(pr).code) violation("exit", "the process ended with code " + std::to_string(proc(pr).code) + "\n" + proc(pr).err.substr(0, 1000));
}
void blob_set(const std::string& s) { if (s.size() > BLOB_MAX - 4096) harness_error("blob"); memcpy(shm->blob, s.data(), s.size()); shm->blob_len = s.size(); }


// ------------------------------------------------------------------------------------------
// The programs that convert a model from its text or binary form into a database.
const char* conv_name[N_KINDS] = {"thot_ttable_to_leveldb", "thot_ngram_to_leveldb", "thot_lextable_to_leveldb", "thot_dict_to_leveldb", "thot_ttable_to_fbdb"};
int p_conv = probe_id("conversion-checked"), p_convfail = probe_id("conversion-failed-and-said-so"), p_convcrash = probe_id("conversion-rerun-after-crash"), p_convskip = probe_id("malformed-line-skipped");
std::string join(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return o; }
// the line of an operation; o.c chooses the layout or a defect that makes the line malformed
enum { L_GOOD, L_SPACES, L_TAB_END, L_EMPTY, L_FEW, L_NOBAR, N_LAYOUTS };
bool malformed(int c) { return c == L_EMPTY || c == L_FEW || c == L_NOBAR; }
std::string line_of(int kind, const Op& o) {
  std::string a = std::to_string(o.a), b = std::to_string(o.b), s = o.s, t = o.t, sep = o.c == L_SPACES ? "   " : " ", l;
  if (o.c == L_EMPTY) return "";
  if (kind == K_NGRAM) {
    auto w = [](const std::string& x) { std::string r; for (auto i : phr(x)) r += (r.empty() ? "w" : " w") + std::to_string(i); return r; };
    s = w(s); t = "w" + std::to_string(Ngr::last(o));
    if (o.c == L_FEW) return t + " 3";
    l = (s.empty() ? "" : s + sep) + t + sep + a + sep + b;
  } else if (kind == K_DICT) {
    s = join(words(phr(s))); t = join(words(phr(t)));
    char v[30]; snprintf(v, sizeof v, "%g", o.a / 16.0);
    if (o.c == L_FEW) return s + " |||"; if (o.c == L_NOBAR) return s + " " + t + " " + v;
    l = s + sep + "|||" + sep + t + sep + "|||" + sep + v;
  } else {
    if (o.c == L_FEW) return s + " ||| " + t + " ||| " + a; if (o.c == L_NOBAR) return s + " " + t + " 7 " + a;
    l = s + sep + "|||" + sep + t + sep + "|||" + sep + "77" + sep + a;
  }
  if (o.c == L_TAB_END) l += " ";
  return l;
}
Store* conv_open(int kind) {
  Store* st = make(kind);
  bool ok = st->load(CONV);
  if (!ok) violation("unusable", std::string("the database that ") + conv_name[kind] + " wrote cannot be opened\n" + proc(cur_proc()).err);
  return st;
}
void run_convert(const Plan& p) {
  static const Plan* P; P = &p;
  static int kind; kind = par(p, "kind");
  static Tool t; t = Tool(); t.name = conv_name[kind];
  static std::string image; std::string bin;
  int bad = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    if (kind == K_LEX) {
      unsigned v[2] = {Lex::w(o.s), Lex::w(o.t)}; float f[2] = {(float)val(o.a), (float)val(o.b)};
      bin.append((char*)v, 8); bin.append((char*)f, 8);
    } else { t.in += line_of(kind, o); if (malformed(o.c)) ++bad; if (i + 1 < p.ops.size() || !par(p, "cut") || malformed(o.c)) t.in += "\n"; }
  }
  t.args = {"-o", CONV};
  if (kind == K_LEX) t.args = {"-i", "/sim/db/table.bin", "-o", CONV};
  static std::string B; B = bin;
  run_phase([] { g_muted = true; vfs_mkdirs("/sim/db"); if (kind == K_LEX) vfs_put("/sim/db/table.bin", B); std::string s = vfs_image(); memcpy(shm->blob, s.data(), s.size()); shm->blob_len = s.size(); });
  { Karena k; image.assign(shm->blob, shm->blob_len); }
  if (par(p, "old")) { // there is an older database
    static Tool u; u = t;
    if (kind == K_LEX) { B.assign((const char*)"\5\0\0\0\6\0\0\0\0\0\0\0\0\0\0\0", 16); run_phase([] { vfs_restore(image); std::string b; vfs_get("/sim/db/table.bin", b); vfs_put("/sim/db/old.bin", B); std::string s = vfs_image(); memcpy(shm->blob, s.data(), s.size()); shm->blob_len = s.size(); }); Karena k; image.assign(shm->blob, shm->blob_len); u.args[1] = "/sim/db/old.bin"; }
    else u.in = kind == K_NGRAM ? "w9 w8 w7 4 2\nw1 5 5\n" : kind == K_DICT ? "zz ||| old ||| 3\n" : "5 6 ||| 7 ||| 3 4\n9 ||| 9 ||| 1 1\n";
    ToolEnd e = run_tool(u, image, true);
    if (!e.ok()) violation("tool-failed", tool_text(u) + " fails\n" + e.err);
    image = e.image;
  }
  bool failing = p.cfg.disk_eio_w || p.cfg.disk_open || p.cfg.open_w || p.cfg.disk_meta || p.cfg.disk_sync || p.cfg.disk_quota >= 0 || p.cfg.disk_eio_r;
  ToolEnd e;
  for (int k = 0; k < 4; ++k) {
    long long c = par(p, ("crash" + std::to_string(k)).c_str(), -1);
    e = run_tool(t, image, false, k < 3 ? c : -1);
    if (e.how != T_CRASH) break;
    probe(p_convcrash);
    image = e.image;
  }
  if (!e.ok()) {
    if (!failing) violation("tool-failed", tool_text(t) + " fails although nothing went wrong (code " + std::to_string(e.code) + ")\n" + e.err);
    probe(p_convfail);
    return;
  }
  image = e.image;
  static std::string err; err = e.err; static int nbad; nbad = bad;
  run_phase([] {
    g_muted = true;
    { Karena k; vfs_restore(image); }
    in_proc([] {
      Plan q = *P; q.ops.clear();
      std::map<std::string, unsigned> voc; std::string vtext;
      if (kind == K_NGRAM) {
        if (!vfs_get(std::string(CONV) + ".ldb_vcb", vtext)) violation("wrong-content", "there is no vocabulary");
        std::istringstream is(vtext); std::string w; unsigned i; std::set<unsigned> used;
        while (is >> w >> i) { if (voc.count(w) || !used.insert(i).second) violation("wrong-content", "the vocabulary is not one to one: " + w); voc[w] = i; }
      }
      auto ids = [&](const std::string& s) { std::string r; for (auto x : phr(s)) { std::string w = "w" + std::to_string(x); if (!voc.count(w)) violation("wrong-content", "the vocabulary lacks " + w); r = cat(r, std::to_string(voc[w])); } return r; };
      Model m;
      for (auto o : P->ops) {
        if (kind != K_LEX && malformed(o.c)) { probe(p_convskip); continue; }
        if (kind == K_NGRAM) { o.t = std::to_string(Ngr::last(o)); o.s = ids(o.s); o.t = ids(o.t); }
        o.code = kind == K_PHR || kind == K_FBDB ? C_INCR : C_ADD;
        for (auto& x : writes(kind, o, m)) m[x.first] = x.second;
        q.ops.push_back(o);
      }
      Store* st = conv_open(kind);
      full(*st, q, m, std::string("in the database written by ") + conv_name[kind]);
      delete st;
      probe(p_conv);
    });
  });
}
void run(const Plan& p) {
  if (par(p, "mode") == M_CONVERT) { run_convert(p); run_ok(); }
  static const Plan* P; P = &p;
  static int kind, mode; kind = par(p, "kind"); mode = par(p, "mode"); plain_bdb = par(p, "plain");
  static std::string image, mtext; static size_t from;
  image.clear(); mtext.clear(); from = 0;
  static bool fresh, wiped, faulty; fresh = true; wiped = false;
  for (int round = 0; round < 6; ++round) {
    long long crash = par(p, ("crash" + std::to_string(round)).c_str(), -1);
    static long long C; C = mode == M_CRASH && round < 4 ? crash : -1;
    memset(&ctl(), 0, sizeof(Ctl)); ctl().completed = ctl().started = from;
    int r = run_phase([] {
      Cfg asked = cfg;
      if (mode == M_FAULT && fresh) { cfg.disk_eio_w = cfg.disk_open = cfg.disk_sync = cfg.disk_meta = cfg.disk_eio_r = 0; cfg.disk_quota = -1; }
      vfs_mkdirs("/sim/db");
      if (!image.empty()) vfs_restore(image);
      cfg.crash_at = C < 0 ? -1 : (long long)vfs_ops() + C; cfg.crash_power = 0;
      in_proc([asked] {
        Store* st = make(kind);
        Model m = model_parse(mtext);
        if (fresh) { if (!st->init(PATH)) violation("unusable", "a new table cannot be created\n" + proc(cur_proc()).err); }
        else if (!st->load(PATH)) {
          if (!wiped) violation("unusable", "the table cannot be opened after a crash\n" + proc(cur_proc()).err);
          vfs_remove_tree(PATH); vfs_remove_tree(std::string(PATH) + "_ldb_hmm_lexnd"); delete st; st = make(kind);
          if (!st->init(PATH)) violation("unusable", "a new table cannot be created");
        } else if (wiped && !st->init(PATH)) violation("unusable", "a table cannot be cleared again after a crash");
        ctl().opened = 1;
        if (!fresh) { probe(p_recover); full(*st, *P, m, "after the crash"); }
        size_t start = ctl().completed;
        if (mode != M_FAULT) { execute(*P, kind, st, m, start, false, nullptr); full(*st, *P, m, "at the end"); }
        else {
          // half of the history without faults, then with them, then without again
          std::map<std::string, std::set<double>> cand;
          Plan a = *P, b = *P; size_t h = a.ops.size() / 3;
          a.ops.resize(h); b.ops.erase(b.ops.begin(), b.ops.begin() + h);
          execute(a, kind, st, m, 0, false, par(*P, "weak") ? &cand : nullptr);
          Cfg calm = cfg; cfg = asked;
          execute(b, kind, st, m, 0, true, &cand);
          cfg = calm;
          delete st; st = make(kind);
          if (!st->load(PATH)) violation("unusable", "the table cannot be opened again once the disk works\n" + proc(cur_proc()).err);
          Model n = m;
          for (auto& c : cand) {
            bool f; double g = st->get(c.first, f), v = f ? g : -12345; bool ok = false;
            for (double x : c.second) if (close(x, v)) ok = true;
            if (!ok && !(P->par.count("incr"))) violation("wrong-content", "after disk errors " + c.first + " is " + (f ? num(g) : "absent") + ", which nobody stored");
            if (f) n[c.first] = g; else { n.erase(c.first); }
            if (has(m, c.first) != f || (f && !close(at(m, c.first), g))) probe(p_faultdiv);
          }
          full(*st, *P, n, "after disk errors");
        }
        delete st;
        if (open_files(cur_proc())) violation("descriptor-leak", std::to_string(open_files(cur_proc())) + " files are still open after the table was closed");
      });
    });
    if (r == PHASE_DONE) break;
    if (r != PHASE_CRASHED) harness_error("store: unexpected end of a phase");
    { Karena k; image.assign(shm->blob, shm->blob_len); }
    // what the crash left behind: the completed operations, and of the one in flight any part
    static Ctl c; c = ctl();
    // the model after the completed operations
    static size_t done, start0; done = c.completed; start0 = from;
    bool inflight = c.opened && c.started > c.completed;
    static Op cur_op; { Karena k; if (inflight) cur_op = P->ops[c.started - 1]; }
    Model m = model_parse(mtext);
    if (!c.opened) { probe(p_crashopen); if (fresh) { wiped = true; } }
    else {
      wiped = false;
      for (size_t i = start0; i < done; ++i) { if (wipes(P->ops[i].code) && kind != K_FBDB) m.clear(); for (auto& x : writes(kind, P->ops[i], m)) m[x.first] = x.second; }
      if (inflight && wipes(cur_op.code)) { wiped = true; probe(p_wipecrash); m.clear(); }
      else if (inflight) {
        probe(p_inflight);
        Writes w = writes(kind, cur_op, m);
        { Karena k; mtext = model_text(m); }
        static Writes W; { Karena k; W = w; }
        if (!w.empty()) {
          run_phase([] {
            vfs_restore(image); cfg.crash_at = -1;
            in_proc([] {
              Store* st = make(kind); Model m = model_parse(mtext);
              if (!st->load(PATH)) violation("unusable", "the table cannot be opened after a crash\n" + proc(cur_proc()).err);
              std::map<std::string, std::set<double>> v; std::map<std::string, bool> had;
              for (auto& x : W) { v[x.first].insert(x.second); had[x.first] = has(m, x.first); }
              for (auto& x : v) {
                bool f; double g = st->get(x.first, f);
                if (x.first == "G:") had[x.first] = true;
                bool ok = f ? (had[x.first] && close(g, at(m, x.first))) : !had[x.first];
                for (double y : x.second) if (f && close(g, y)) { ok = true; probe(p_inflight_new); }
                if (!ok) violation("crash-atomicity", "after a crash in the middle of an update " + x.first + " is " + (f ? num(g) : std::string("absent")) + ": neither its old nor its new value");
                if (f) m[x.first] = g; else m.erase(x.first);
              }
              delete st;
              blob_set(model_text(m));
            });
          });
          Karena k; mtext.assign(shm->blob, shm->blob_len); m = model_parse(mtext);
        }
      }
      from = inflight ? c.started : done;
      fresh = false;
    }
    if (fresh && !c.opened) fresh = false;
    Karena k; mtext = model_text(m);
  }
  run_ok();
}

void generate(u64 seed, int variant, Plan& p) {
  Rng r(seed * 131 + variant);
  int kind = variant % 10, mode = variant / 10;   // 30..34: conversion programs
  p.par["kind"] = kind; p.par["mode"] = mode;
  p.par["readers"] = mode == M_PLAIN && r.permille(300);
  if (kind == K_FBDB && mode != M_CONVERT) p.par["plain"] = r.permille(350);
  if (par(p, "readers")) { p.cfg.races = 1; p.cfg.access_mean = 200 + r.below(5000); }
  p.cfg.sync_permille = r.permille(500) ? 0 : 20 + r.below(300);
  if (r.permille(300)) p.cfg.spurious_permille = 50;
  if (r.permille(300)) p.cfg.disk_eintr = 100;
  static const unsigned edge[] = {3, 4, 5, 252, 253, 254, 255, 256, 257, 258, 507, 508, 509, 64514, 64515, 64516, 64517, 64518, 65535, 65536, 1000000, 16387062, 999999};
  std::vector<unsigned> ids; for (int i = 0, n = 2 + r.below(8); i < n; ++i) ids.push_back(r.permille(500) ? 3 + r.below(40) : edge[r.below(23)]);
  if (kind == K_NGRAM) for (int i = 0; i < 2; ++i) if (r.permille(400)) ids.push_back(r.below(4));
  if (kind == K_LEX) for (int i = 0; i < 2; ++i) if (r.permille(300)) ids.push_back(r.permille(500) ? r.below(3) : 4000000000u);
  if (kind == K_DICT) for (auto& i : ids) if (r.permille(600)) i = r.below(14);
  auto phrase = [&](int max) { std::string s; int n = 1 + r.below(max); if (r.permille(400)) n = 1; for (int i = 0; i < n; ++i) s = cat(s, std::to_string(ids[r.below(ids.size())])); return s; };
  std::vector<std::pair<std::string, std::string>> used;
  int n = 4 + r.below(mode == M_PLAIN ? 30 : 20);
  auto pair = [&](Op& o) {
    if (!used.empty() && r.permille(450)) { auto& u = used[r.below(used.size())]; o.s = u.first; o.t = u.second; if (r.permille(400)) o.s = used[r.below(used.size())].first; }
    else if (kind == K_LEX) { o.s = phrase(1); o.t = phrase(1); }
    else if (kind == K_NGRAM) { o.s = r.permille(120) ? "" : phrase(r.permille(150) ? 9 : 3); o.t = phrase(1); }
    else { o.s = phrase(kind == K_FBDB ? 8 : r.permille(150) ? 14 : 4); o.t = phrase(kind != K_FBDB && r.permille(150) ? 14 : 4); }
    used.push_back({o.s, o.t});
  };
  long long lastv = 1;
  for (int i = 0; i < n; ++i) {
    Op o; int x = r.below(100);
    pair(o);
    o.a = 1 + r.below(r.permille(800) ? 20 : 90000); o.b = 1 + r.below(o.a);
    if (r.permille(60)) o.a = 0;
    if (r.permille(60)) o.b = 0;
    o.code = x < 40 ? C_ADD : x < 46 ? C_SRC : x < 52 ? C_ST : x < 66 ? C_INCR : x < 78 ? C_QUERY : x < 83 ? C_CHECK : x < 92 ? C_REOPEN : x < 93 ? C_CLEAR : x < 94 ? C_INIT : x < 95 ? C_DROP : x < 96 ? C_SECOND : x < 98 ? C_PRINTLOAD : C_BULK;
    if (kind == K_LEX && o.code == C_INCR) o.code = C_ADD;
    if (kind == K_LEX && (o.code == C_ADD || o.code == C_SRC || o.code == C_ST)) for (long long* v : {&o.a, &o.b}) {
      switch (r.below(8)) {
        case 0: *v = enc(ldexpf(r.below(1 << 24), -(int)r.below(140))); break;        // expected counts, however small
        case 1: *v = enc(-(float)r.below(1 << 20) / 4096); break;                     // logarithms
        case 2: *v = enc(nextafterf(val(lastv), r.permille(500) ? INFINITY : -INFINITY)); break;
        case 3: *v = r.permille(500) ? enc(val(lastv) * 1.0000005f) : lastv; break;
        case 4: { unsigned b = r.next(); if ((b >> 23 & 255) != 255) *v = BITS | b; break; }
      }
      lastv = *v;
    }
    if (kind == K_NGRAM && o.code <= C_INCR && r.permille(200)) { o.a = enc((1 + r.below(320)) / 16.0f); o.b = enc((1 + r.below(320)) / 16.0f); }
    if (kind == K_DICT && (o.code == C_SRC || o.code == C_ST || o.code == C_INCR)) o.code = C_ADD;
    if (kind == K_FBDB) { if (o.code == C_ADD || o.code == C_SRC || o.code == C_ST) o.code = C_INCR; if (o.code == C_SECOND || o.code == C_CLEAR || o.code == C_DROP || o.code == C_PRINTLOAD) o.code = C_FAST; if (!o.a) o.a = 1; }
    if (kind == K_NGRAM && o.code == C_INCR && !o.a) o.a = 1;
    if (o.code == C_BULK) { if (o.a >= BITS) o.a = 7; o.b = 5 + r.below(mode == M_CRASH ? 20 : 120); if (kind == K_NGRAM && o.s.empty()) o.s = "5"; }
    if (mode == M_FAULT && (wipes(o.code) || o.code == C_INCR || o.code == C_BULK)) o.code = kind == K_FBDB ? C_INCR : C_ADD;
    if (o.code == C_REOPEN || o.code == C_CLEAR) o.a = r.below(2);
    p.ops.push_back(o);
  }
  if (mode == M_CONVERT) {
    p.par["readers"] = 0; p.cfg.races = 0; p.cfg.access_mean = 0;
    p.par["cut"] = r.permille(300); p.par["old"] = kind != K_FBDB && r.permille(300);
    for (auto& o : p.ops) {
      o.code = C_ADD;
      if (kind != K_LEX) { o.a = 1 + r.below(r.permille(800) ? 20 : 90000); o.b = 1 + r.below(o.a); }
      o.c = kind == K_LEX || r.permille(700) ? 0 : r.below(kind == K_NGRAM ? L_NOBAR : N_LAYOUTS);
    }
    switch (r.below(3)) {
      case 1: if (kind != K_FBDB) { p.par["crash0"] = r.below(10 + n * 6); if (r.permille(400)) p.par["crash1"] = r.below(60); if (r.permille(200)) p.par["crash2"] = r.below(40); } break;
      case 2: {
        p.cfg.disk_short = r.permille(300) ? 200 : 0;
        int k = r.below(5);
        if (k == 0) p.cfg.disk_eio_w = 5 + r.below(200);
        if (k == 1) p.cfg.open_w = 50 + r.below(300);
        if (k == 2) p.cfg.disk_sync = 100 + r.below(300);
        if (k == 3) p.cfg.disk_meta = 50 + r.below(300);
        if (k == 4) p.cfg.disk_quota = r.below(3000);
        break;
      }
    }
    return;
  }
  if (mode == M_CRASH) {
    p.par["crash0"] = r.below(kind == K_FBDB ? 20 : 10 + n * 6);
    if (r.permille(600)) p.par["crash1"] = r.below(60);
    if (r.permille(300)) p.par["crash2"] = r.below(40);
    if (r.permille(200)) p.par["crash3"] = r.below(10);
  }
  if (mode == M_FAULT) {
    int k = r.below(6);
    if (k == 5) { p.par["readfail"] = 100 + r.below(600); for (auto& o : p.ops) if (o.code == C_QUERY) o.code = r.permille(600) ? C_CHECK : C_REOPEN; }
    if (k == 0) p.cfg.disk_eio_w = 20 + r.below(200);
    if (k == 1) { p.cfg.disk_open = 50 + r.below(300); p.par["weak"] = 1; }   // LevelDB drops a log that it cannot open
    if (k == 2) p.cfg.disk_sync = 100 + r.below(300);
    if (k == 3) p.cfg.disk_meta = 50 + r.below(300);
    if (k == 4) p.cfg.disk_quota = r.below(3000);
  }
}
void load() {}
struct Reg { Reg() { register_world(World{"store", generate, run, load}); } } reg;
}
