// The wire protocol of thot_server, as its clients see it.
#pragma once
#include <string>
#include <vector>
#include "sim.h"
namespace sim {
enum { RQ_VERIFY = 1, RQ_TRANS = 2, RQ_TRANS_INFO = 3, RQ_TRAIN = 4, RQ_ECM = 5, RQ_CAT = 6, RQ_ADD = 7, RQ_RESET = 8, RQ_PRINT = 9, RQ_BYE = 10, RQ_END = 11 };
std::string wire_int(int v);
std::string wire_str(const std::string& s);
int n_args(int code);                       // strings of a request
int n_strings(int code);                    // strings of its reply; -1: an integer, -2: no reply
std::string encode(int code, int uid, const std::string& s, const std::string& t);
// 0 incomplete, 1 complete, -1 malformed; rest: bytes after the reply
int parse_reply(int code, const std::string& bytes, std::vector<std::string>& out, size_t& rest);
// deterministic text material
extern const char* src_words[]; extern const int n_src_words;
extern const char* trg_words[]; extern const int n_trg_words;
std::string sentence(Rng& r, bool target, int maxlen = 6);
std::string constrained_sentence(Rng& r, bool json);
std::string odd_sentence(Rng& r);           // empty, blank, unseen, UTF-8, long ...
std::vector<std::string> toks(const std::string& s);
// installs a configuration and returns the arguments of thot_server
enum { INI_JSON = 4, N_INI = 8 };
enum { N_CFG = 17 };
void load_models();                         // parent, once
void install_cfg(int cfgid, int ini);       // child: master.ini and /sim/toy/run.cfg
const char* cfg_name(int cfgid);
std::string model_files();
std::string differing_files(const std::string& a, const std::string& b);
int start_server(bool verbose, const char* cfgfile = "/sim/toy/run.cfg");   // spawns the process, waits until it listens
}  // namespace sim
