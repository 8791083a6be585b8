// Runs a command-line program of thot in a simulated process of its own.
#pragma once
#include "sim.h"
namespace sim {
struct Tool { std::string name; std::vector<std::string> args; std::string in; };
enum { T_EXIT, T_ABORT, T_CRASH };
struct ToolEnd {
  int how = T_EXIT, code = 0;
  std::string out, err, image;
  std::map<std::string, std::string> files;    // under /sim/w/
  bool ok() const { return how == T_EXIT && code == 0; }
};
// calm: no faults and a fixed schedule; crash: kill the process at that disk operation (-1: never)
ToolEnd run_tool(const Tool&, const std::string& image, bool calm, long long crash = -1);
std::string tool_text(const Tool&);
}
