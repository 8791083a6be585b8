// Histories of a running thot_server: execution, recording and the sequential reference.
#pragma once
#include "proto.h"
namespace sim {
enum Status { ST_NONE, ST_REFUSED, ST_HALF, ST_PENDING, ST_OK, ST_CLOSED };
struct Rec {
  u64 inv = 0, conn = 0, ret = 0;
  int status = ST_NONE;
  std::string reply;           // bytes received
  std::string files;           // PRINT_MODELS: fingerprint of the model files when it was acknowledged
  int stopped = 0;             // the server had been told to stop before this request connected
};
enum { B_NONE, B_CLOSE, B_RST, B_CUT, B_CUT_RST, B_CUT_STALL, B_PARTREAD, B_RAW, B_SILENT, B_SLOWREAD, B_TOOL };   // B_TOOL: the request is made by a thot_client process
enum { FINAL_ACTOR = 99 };
std::string ser(const std::vector<Rec>&);
std::vector<Rec> deser(const std::string&);
std::string op_text(const Op&, const Rec* = nullptr);
void exec_op(const Op& op, Rec& r);           // in a client fiber
bool pure_op(int code);
struct RunOpts { bool verbose = false; const char* cfg = "/sim/toy/run.cfg"; bool keep_server = false; bool accept_losses = false, disk_ok = true, check_train = true, can_train = true; u64 kill_at = 0; };   // kill_at: microseconds after which the server process is killed
// runs ops concurrently (one fiber per actor), then the FINAL_ACTOR ones one by one
// (an END_SERVER among them stops the server and its exit code is checked)
void run_history(const std::vector<Op>& ops, std::vector<Rec>& rec, int sp, const RunOpts&);
// the recorded history has a sequential explanation; called in a fresh phase
void check_linearizable(const std::vector<Op>& ops, const std::vector<Rec>& rec, bool verbose, bool use_files);
// the sentence pairs of the saved alignment models are the acknowledged ones, each as often as it was sent
void check_once(const std::vector<Op>& ops, const std::vector<Rec>& rec, double step);
void check_lm(const std::vector<Op>& ops, const std::vector<Rec>& rec, const std::string& lm_before, double step);
// where the content of the disk is kept when the first PRINT_MODELS of the FINAL_ACTOR was acknowledged
extern std::string* g_image_at_save;
// the operations one by one against a fresh server
void run_alone(const std::vector<Op>& ops, std::vector<Rec>& rec, bool verbose);
// faults that may legitimately cost a request its reply
bool losses_possible();
std::string tail_of(int sp);
std::string printable(const std::string&);
}
