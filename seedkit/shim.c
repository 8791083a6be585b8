/* Preloaded into the real programs: redirects the installation's master.ini, splits socket transfers,
   delays chosen calls so that an interleaving or a fault happens for certain. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static const char* redir(const char* p) {
  size_t n = p ? strlen(p) : 0;
  const char* m = getenv("SHIM_MASTER");
  return m && n > 11 && !strcmp(p + n - 11, "/master.ini") ? m : p;
}
FILE* fopen(const char* p, const char* m) { FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen"); return f(redir(p), m); }
FILE* fopen64(const char* p, const char* m) { FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen64"); return f(redir(p), m); }
static int envi(const char* k, int d) { const char* s = getenv(k); return s ? atoi(s) : d; }
static int is_sock(int fd) { struct stat st; return !fstat(fd, &st) && S_ISSOCK(st.st_mode); }
/* SHIM_RECV_MAX / SHIM_SEND_MAX: at most so many bytes per call; SHIM_RECV_EINTR: every n-th recv is interrupted */
ssize_t recv(int s, void* b, size_t n, int fl) {
  ssize_t (*f)(int, void*, size_t, int) = dlsym(RTLD_NEXT, "recv");
  static int cnt; int k = envi("SHIM_RECV_EINTR", 0), m = envi("SHIM_RECV_MAX", 0);
  if (k && __sync_add_and_fetch(&cnt, 1) % k == 0) { errno = EINTR; return -1; }
  return f(s, b, m && n > (size_t)m ? m : n, fl);
}
/* SHIM_KILL_WRITE=n: the process dies at its n-th write to a regular file; SHIM_ERR_DELAY: pause after each write to stderr (us)
   SHIM_FAIL_WRITE=n / SHIM_FAIL_PATH=substring: from the n-th write on (or for that file) the disk is full */
static int is_reg(int fd) { struct stat st; return !fstat(fd, &st) && S_ISREG(st.st_mode); }
static int fails(int fd) {
  const char* fp = getenv("SHIM_FAIL_PATH");
  static int cnt; int k = envi("SHIM_FAIL_WRITE", 0);
  if (!fp && !k) return 0;
  if (!is_reg(fd)) return 0;
  if (fp) { char a[64], b[1000]; snprintf(a, sizeof a, "/proc/self/fd/%d", fd); ssize_t l = readlink(a, b, sizeof b - 1); if (l < 0) return 0; b[l] = 0; if (!strstr(b, fp)) return 0; }
  return __sync_add_and_fetch(&cnt, 1) >= k;
}
#include <sys/uio.h>
ssize_t writev(int fd, const struct iovec* v, int n) {
  ssize_t (*f)(int, const struct iovec*, int) = dlsym(RTLD_NEXT, "writev");
  if (fails(fd)) { errno = ENOSPC; return -1; }
  return f(fd, v, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (envi("SHIM_KILL_WRITE", 0) && is_reg(fd)) { static int kc; if (__sync_add_and_fetch(&kc, 1) == envi("SHIM_KILL_WRITE", 0)) _exit(77); }
  if (fails(fd)) { errno = ENOSPC; return -1; }
  if (fd == 2 && envi("SHIM_ERR_DELAY", 0)) { ssize_t (*g)(int, const void*, size_t) = dlsym(RTLD_NEXT, "write"); ssize_t r = g(fd, b, n); usleep(envi("SHIM_ERR_DELAY", 0)); return r; }
  ssize_t (*f)(int, const void*, size_t) = dlsym(RTLD_NEXT, "write");
  int m = envi("SHIM_SEND_MAX", 0);
  static int cnt; int k = envi("SHIM_SEND_EINTR", 0);
  if ((m || k) && is_sock(fd)) {
    if (k && __sync_add_and_fetch(&cnt, 1) % k == 0) { errno = EINTR; return -1; }
    if (m && n > (size_t)m) n = m;
  }
  return f(fd, b, n);
}
/* SHIM_NO_THREAD=n: the n-th thread creation fails */
/* SHIM_THREAD_DELAY: new threads start that much later (us); SHIM_SPURIOUS=n: the first n condition waits return at once */
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  int (*f)(pthread_cond_t*, pthread_mutex_t*) = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  static int cnt;
  if (__sync_add_and_fetch(&cnt, 1) <= envi("SHIM_SPURIOUS", 0)) { pthread_mutex_unlock(m); usleep(1000); pthread_mutex_lock(m); return 0; }
  return f(c, m);
}
/* pause after each piece of text that C++ code prints */
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* os, const char* t) {
  void* (*f)(void*, const char*) = dlsym(RTLD_NEXT, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
  extern char _ZSt4cerr[] __attribute__((weak));
  void* r = f(os, t);
  if (os == (void*)_ZSt4cerr && envi("SHIM_ERR_DELAY", 0)) usleep(envi("SHIM_ERR_DELAY", 0));
  return r;
}
struct start { void* (*fn)(void*); void* arg; };
static void* late(void* p) { struct start s = *(struct start*)p; free(p); usleep(envi("SHIM_THREAD_DELAY", 0)); return s.fn(s.arg); }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  int (*f)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = dlsym(RTLD_NEXT, "pthread_create");
  static int cnt;
  if (envi("SHIM_NO_THREAD", 0) && ++cnt == envi("SHIM_NO_THREAD", 0)) return EAGAIN;
  if (envi("SHIM_THREAD_DELAY", 0)) { struct start* s = malloc(sizeof *s); s->fn = fn; s->arg = arg; return f(t, a, late, s); }
  return f(t, a, fn, arg);
}
