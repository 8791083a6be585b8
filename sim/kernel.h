// Internals shared by the kernel and the simulated operating system.
#pragma once
#include "sim.h"
#include <signal.h>
namespace sim {
enum { MAXF = 120, SHSTACK = 200 };
enum FState { RUNNABLE, BLOCKED, DONE };
struct Fiber {
  int id = 0, proc = 0;
  FState state = RUNNABLE;
  std::string name;
  void* sp = nullptr;
  std::function<void()>* fn = nullptr;
  std::function<bool()>* ready = nullptr;
  int off = 0, kar = 0, err = 0, prio = 0;
  unsigned char eh[16] = {0};
  void* wait_on = nullptr;
  const char* why = "";
  u64 deadline = 0;
  bool timed_out = false;
  bool detached = false;
  bool library = false;          // a background thread of an installed library
  void* retval = nullptr;
  u32 vc[MAXF] = {0};
  int depth = 0;
  void* stack[SHSTACK];
  std::map<unsigned, void*>* keys = nullptr;
};
extern Fiber fibers[MAXF];
extern int n_fibers;
extern Fiber* cur;
extern Fiber host;
[[noreturn]] void fiber_exit();
u64 clock_raw();
std::string stack_text();
void real_sigaction_all(void (*h)(int, siginfo_t*, void*));
// scope of simulator code called from simulated code
struct Enter { int o; Enter() : o(g_off) { ++g_off; ++g_karena; } ~Enter() { g_off = o; --g_karena; } };
}
