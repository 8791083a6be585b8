/* Stands for every external command of the scripts: asks the simulator (a unix socket named by
   SIM_SOCK) what happens to this call, then does it.  Answers:
     R                 run the real command
     O code            print the text that follows the line and exit with code
     E code            exit with code, doing nothing
     P code n          run the real command, pass on only n bytes of its output, then exit with code (or die if code is -1)
     L code            run the real command, then exit with code
     D n               run the real command with a file size limit of n bytes (disk full) */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
static char buf[1 << 20];
static char** run_argv;
static char path[4096];
static void real(void) {
  execv(path, run_argv);
  fprintf(stderr, "%s: %s\n", path, strerror(errno));
  _exit(127);
}
static int parent(int pid) {
  char f[64], b[512]; snprintf(f, sizeof f, "/proc/%d/stat", pid);
  FILE* h = fopen(f, "r"); if (!h) return 0;
  size_t n = fread(b, 1, sizeof b - 1, h); fclose(h); b[n] = 0;
  char* p = strrchr(b, ')'); int pp = 0;
  if (p) sscanf(p + 1, " %*c %d", &pp);
  return pp;
}
/* commands started with & read from /dev/null, which nothing else does: the outermost such process */
static int background(void) {
  int r = 0;
  for (int p = getppid(), i = 0; p > 1 && i < 64; p = parent(p), ++i) {
    char f[64], b[64]; snprintf(f, sizeof f, "/proc/%d/fd/0", p);
    ssize_t n = readlink(f, b, sizeof b - 1);
    if (n == 9 && !memcmp(b, "/dev/null", 9)) r = p;
  }
  return r;
}
int main(int argc, char** argv) {
  const char *sock = getenv("SIM_SOCK"), *root = getenv("SIM_ROOT");
  const char* name = strrchr(argv[0], '/');
  name = name ? name + 1 : argv[0];
  if (!sock || !root) return 126;
  run_argv = argv;
  int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_un a = {AF_UNIX};
  strncpy(a.sun_path, sock, sizeof a.sun_path - 1);
  if (connect(fd, (struct sockaddr*)&a, sizeof a)) { kill(0, SIGKILL); return 126; }   /* the run is over */
  struct stat st;
  int reg = !fstat(1, &st) && S_ISREG(st.st_mode);
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  size_t n = 0, cap = sizeof buf - 64;
  n += snprintf(buf + n, cap - n, "%d%c%d%c%d%c%d%c%d%c%s%c%s", (int)getsid(0), 0, (int)getpid(), 0, (int)getppid(), 0, background(), 0, reg, 0, cwd, 0, name);
  for (int i = 1; i < argc; ++i) { size_t l = strlen(argv[i]); if (n + l + 2 > cap) break; buf[n++] = 0; memcpy(buf + n, argv[i], l); n += l; }
  unsigned len = n;
  if (write(fd, &len, sizeof len) != sizeof len) return 126;
  for (size_t o = 0; o < n;) { ssize_t k = write(fd, buf + o, n - o); if (k <= 0) return 126; o += k; }
  size_t got = 0;
  for (;;) { ssize_t k = read(fd, buf + got, sizeof buf - 1 - got); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; got += k; }
  close(fd);
  buf[got] = 0;
  if (!got) return 126;
  char* text = strchr(buf, '\n');
  if (!text) return 126;
  *text++ = 0;
  int code = 0; long lim = 0;
  /* the second word of the answer line is always the real path, if there is one */
  char kind = buf[0];
  sscanf(buf + 1, "%d %ld %4095s", &code, &lim, path);
  switch (kind) {
    case 'R': real();
    case 'O': fputs(text, stdout); fflush(stdout); return code;
    case 'E': if (code < 0) raise(SIGKILL); return code;
    case 'D': { struct rlimit r = {lim, lim}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); real(); }
    case 'L': case 'P': {
      int p[2] = {-1, -1};
      if (kind == 'P' && pipe(p)) return 126;
      pid_t c = fork();
      if (!c) { if (kind == 'P') { dup2(p[1], 1); close(p[0]); close(p[1]); } real(); }
      if (kind == 'P') {
        close(p[1]);
        char b[4096]; ssize_t k;
        while (lim > 0 && (k = read(p[0], b, lim < (long)sizeof b ? lim : (long)sizeof b)) > 0) { if (write(1, b, k) < 0) break; lim -= k; }
        kill(c, SIGKILL);
      }
      int s; while (waitpid(c, &s, 0) < 0 && errno == EINTR);
      if (code < 0) raise(SIGKILL);
      return code;
    }
  }
  return 126;
}
