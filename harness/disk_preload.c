// Loaded into cmake (and what it starts) by harness/configfile.py: every operation on files below SIM_DISK_ROOT is counted in a page shared
// with the simulator, which decides at which of them the whole process group dies or the operation fails.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

struct plan { int32_t n, at, kind, fired; char what[240]; };   // kind 0: killed before the operation, 1: killed in the middle of a write
static struct plan* P;
static char root[4096];
static size_t rl;

__attribute__((constructor)) static void init(void) {
  const char* f = getenv("SIM_DISK_PLAN"); const char* r = getenv("SIM_DISK_ROOT");
  if (!f || !r) return;
  int (*op)(const char*, int, ...) = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
  int fd = op(f, O_RDWR | O_CLOEXEC);
  if (fd < 0) return;
  void* m = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (m == MAP_FAILED) return;
  snprintf(root, sizeof root, "%s/", r); rl = strlen(root); P = (struct plan*)m;
}
static int ours(const char* p) { return P && p && strncmp(p, root, rl) == 0; }
static int ours_fd(int fd) {
  if (!P) return 0;
  char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return 0;
  b[n] = 0; return ours(b);
}
static void die(const char* what, const char* path) { P->fired = 1; snprintf(P->what, sizeof P->what, "%s %s", what, path); kill(0, SIGKILL); for (;;) pause(); }
// true: the caller, a write, is to be cut in the middle
static int op(const char* what, const char* path) {
  int i = P->n++;
  if (i != P->at) return 0;
  if (P->kind == 1 && strcmp(what, "write") == 0) return 1;
  die(what, path); return 0;
}
#define REAL(n, t) static __typeof__(t) real; if (!real) real = (__typeof__(t))dlsym(RTLD_NEXT, n)
static int wr(const char* m) { return strpbrk(m, "wa+") != 0; }
FILE* fopen(const char* p, const char* m) { REAL("fopen", FILE* (*)(const char*, const char*)); if (wr(m) && ours(p)) op("open", p); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL("fopen64", FILE* (*)(const char*, const char*)); if (wr(m) && ours(p)) op("open", p); return real(p, m); }
#define OPEN(name) int name(const char* p, int fl, ...) { REAL(#name, int (*)(const char*, int, ...)); va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
  if ((fl & (O_WRONLY | O_RDWR | O_CREAT)) && ours(p)) { op("open", p); } return real(p, fl, m); }
OPEN(open)
OPEN(open64)
int rename(const char* a, const char* b) { REAL("rename", int (*)(const char*, const char*)); if (ours(b)) op("rename", b); return real(a, b); }
int unlink(const char* a) { REAL("unlink", int (*)(const char*)); if (ours(a)) op("unlink", a); return real(a); }
int remove(const char* a) { REAL("remove", int (*)(const char*)); if (ours(a)) op("unlink", a); return real(a); }
ssize_t write(int fd, const void* b, size_t n) {
  REAL("write", ssize_t (*)(int, const void*, size_t));
  if (ours_fd(fd) && op("write", "")) { if (real(fd, b, n / 2) < 0) {} die("write", "(half)"); }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL("writev", ssize_t (*)(int, const struct iovec*, int));
  if (ours_fd(fd) && op("write", "")) { if (c && write(fd, v[0].iov_base, v[0].iov_len / 2) < 0) {} die("write", "(half)"); }
  return real(fd, v, c);
}
