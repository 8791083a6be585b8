// The programs of thot as one ordinary executable: the objects that the simulator is made of, without
// the simulator.  The name it is called by selects the program.
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#define FACTORY(f) extern "C" void* sim_create_##f(const char*); extern "C" const char* sim_type_id_##f();
#define MAIN(m)
#include "registry.inc"
#undef FACTORY
#undef MAIN
#define FACTORY(f)
#define MAIN(m) int sim_main_##m(int, char**) asm("sim_main_" #m);
#include "registry.inc"
#undef FACTORY
#undef MAIN
struct Fac { const char* name; void* create; void* type_id; };
static Fac facs[] = {
#define FACTORY(f) {#f, (void*)sim_create_##f, (void*)sim_type_id_##f},
#define MAIN(m)
#include "registry.inc"
#undef FACTORY
#undef MAIN
    {nullptr, nullptr, nullptr}};
struct MainEnt { const char* name; int (*fn)(int, char**); };
static MainEnt mains[] = {
#define FACTORY(f)
#define MAIN(m) {#m, sim_main_##m},
#include "registry.inc"
    {nullptr, nullptr}};
extern "C" {
static const char* dl_err;
void* __wrap_dlopen(const char* f, int) {
  const char* b = strrchr(f, '/'); b = b ? b + 1 : f;
  for (Fac* x = facs; x->name; ++x) if (std::string(x->name) + ".so" == b) return x;
  dl_err = "no such module";
  return nullptr;
}
void* __wrap_dlsym(void* h, const char* n) {
  dl_err = nullptr;
  Fac* x = (Fac*)h;
  if (!strcmp(n, "create")) return x->create;
  if (!strcmp(n, "type_id")) return x->type_id;
  dl_err = "no such symbol";
  return nullptr;
}
int __wrap_dlclose(void*) { return 0; }
char* __wrap_dlerror() { const char* r = dl_err; dl_err = nullptr; return (char*)r; }
void* __real_dlsym(void*, const char*);
// the master configuration file is where the run keeps it
static std::string place(const char* f) {
  const char* s = getenv("SIM_SHARE");
  return s && !strncmp(f, "/sim/share/", 11) ? std::string(s) + (f + 10) : f;
}
FILE* fopen(const char* f, const char* m) { static auto r = (FILE * (*)(const char*, const char*))__real_dlsym(RTLD_NEXT, "fopen"); return r(place(f).c_str(), m); }
FILE* fopen64(const char* f, const char* m) { static auto r = (FILE * (*)(const char*, const char*))__real_dlsym(RTLD_NEXT, "fopen64"); return r(place(f).c_str(), m); }
// instrumentation is not used here
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) {} void __tsan_write##n(void*) {} void __tsan_unaligned_read##n(void*) {} void __tsan_unaligned_write##n(void*) {} void __tsan_read_write##n(void*) {} void __tsan_unaligned_read_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* p, int) { return *p; } void __tsan_atomic##b##_store(volatile T* p, T v, int) { *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_vptr_update(void** p, void* v) {}
void __tsan_vptr_read(void** p) {}
void __tsan_read_range(void*, size_t) {}
void __tsan_write_range(void*, size_t) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
}
int main(int argc, char** argv) {
  const char* b = strrchr(argv[0], '/'); b = b ? b + 1 : argv[0];
  for (MainEnt* m = mains; m->name; ++m) if (!strcmp(m->name, b)) return m->fn(argc, argv);
  fprintf(stderr, "no program called %s\n", b);
  return 127;
}
