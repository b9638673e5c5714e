/* LD_PRELOAD seam of the simulator: wall clock and file I/O.
 *
 * Everything is off until armed through the dst_* functions (ctypes). Only
 * files below the armed prefix are counted / made to fail, so the simulator's
 * own I/O is never touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------- clock --- */
static int clk_on = 0;
static long long clk_now = 0, clk_step = 0;
void dst_clock(int on, long long now_ns, long long step_ns) {
  clk_on = on; clk_now = now_ns; clk_step = step_ns;
}
void dst_clock_jump(long long d) { clk_now += d; }
static int (*r_cg)(clockid_t, struct timespec *);
static int is_real(clockid_t c) {
  return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
}
static long long tick(void) { clk_now += clk_step; return clk_now; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!r_cg) r_cg = dlsym(RTLD_NEXT, "clock_gettime");
  if (clk_on && is_real(c)) {
    long long n = tick();
    ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
    return 0;
  }
  return r_cg(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  static int (*r)(struct timeval *, void *);
  if (!r) r = dlsym(RTLD_NEXT, "gettimeofday");
  if (clk_on) {
    long long n = tick();
    tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000;
    return 0;
  }
  return r(tv, tz);
}
time_t time(time_t *t) {
  static time_t (*r)(time_t *);
  if (!r) r = dlsym(RTLD_NEXT, "time");
  if (clk_on) {
    time_t s = (time_t)(tick() / 1000000000LL);
    if (t) *t = s;
    return s;
  }
  return r(t);
}

/* --------------------------------------------------------------- I/O --- */
enum { OP_OPEN = 0, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_SYNC, NOPS };
static char prefix[PATH_MAX] = "";
static size_t plen = 0;
static long count = 0, nth = -1, fired = 0;
static long per_op[NOPS];
static int action = 0;      /* 0 none, 1 crash before, 2 crash after,
                               3 error once, 4 error from nth on,
                               5 torn write then crash, 6 short write once */
static int err_no = EIO;
static int mask = 0;        /* bit per op kind which may be hit; 0 = all */
void dst_io_arm(const char *p, long n, int act, int err, int msk) {
  strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix);
  count = 0; fired = 0; nth = n; action = act; err_no = err; mask = msk;
  memset(per_op, 0, sizeof per_op);
}
void dst_io_off(void) { plen = 0; prefix[0] = 0; nth = -1; action = 0; }
long dst_io_count(void) { return count; }
long dst_io_fired(void) { return fired; }
long dst_io_per_op(int i) { return per_op[i]; }

static int path_hit(const char *p) {
  char buf[PATH_MAX];
  if (!plen || !p) return 0;
  if (p[0] != '/') {
    if (!getcwd(buf, sizeof buf)) return 0;
    size_t l = strlen(buf);
    snprintf(buf + l, sizeof buf - l, "/%s", p);
    return strncmp(buf, prefix, plen) == 0;
  }
  return strncmp(p, prefix, plen) == 0;
}
static int fd_hit(int fd) {
  char lnk[64], buf[PATH_MAX];
  if (!plen) return 0;
  snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(lnk, buf, sizeof buf - 1);
  if (n <= 0) return 0;
  buf[n] = 0;
  return strncmp(buf, prefix, plen) == 0;
}
/* returns: 0 go on, 1 fail with errno, 2 crash after, 5 torn, 6 short */
static int decide(int op) {
  if (mask && !(mask & (1 << op))) return 0;
  count++; per_op[op]++;
  if (nth < 0) return 0;
  if (action == 4 ? count < nth : count != nth) return 0;
  fired++;
  switch (action) {
  case 1: _exit(77);
  case 2: return 2;
  case 3: case 4: errno = err_no; return 1;
  case 5: return op == OP_WRITE ? 5 : 2;
  case 6: return op == OP_WRITE ? 6 : 0;
  }
  return 0;
}
#define REAL(ret, name, ...) \
  static ret (*r)(__VA_ARGS__); \
  if (!r) r = dlsym(RTLD_NEXT, name);
#define AFTER(d) if ((d) == 2) _exit(77);

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t)
  int d = 0;
  if (plen && fd_hit(fd)) d = decide(OP_WRITE);
  if (d == 1) return -1;
  if (d == 5) { r(fd, b, n / 2); _exit(77); }
  if (d == 6 && n > 1) return r(fd, b, n / 2);
  ssize_t x = r(fd, b, n); AFTER(d) return x;
}
static ssize_t do_pwrite(ssize_t (*r)(int, const void *, size_t, off64_t),
                         int fd, const void *b, size_t n, off64_t o) {
  int d = 0;
  if (plen && fd_hit(fd)) d = decide(OP_WRITE);
  if (d == 1) return -1;
  if (d == 5) { r(fd, b, n / 2, o); _exit(77); }
  if (d == 6 && n > 1) return r(fd, b, n / 2, o);
  ssize_t x = r(fd, b, n, o); AFTER(d) return x;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t)
  return do_pwrite(r, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t)
  return do_pwrite(r, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec *, int)
  int d = 0;
  if (plen && fd_hit(fd)) d = decide(OP_WRITE);
  if (d == 1) return -1;
  ssize_t x = r(fd, v, c);
  if (d == 5) _exit(77);
  AFTER(d) return x;
}
int ftruncate64(int fd, off64_t l) {
  REAL(int, "ftruncate64", int, off64_t)
  int d = 0;
  if (plen && fd_hit(fd)) d = decide(OP_TRUNC);
  if (d == 1) return -1;
  int x = r(fd, l); AFTER(d) return x;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fsync(int fd) {
  REAL(int, "fsync", int)
  int d = 0;
  if (plen && fd_hit(fd)) d = decide(OP_SYNC);
  if (d == 1) return -1;
  int x = r(fd); AFTER(d) return x;
}
int rename(const char *a, const char *b) {
  REAL(int, "rename", const char *, const char *)
  int d = 0;
  if (plen && (path_hit(a) || path_hit(b))) d = decide(OP_RENAME);
  if (d == 1) return -1;
  int x = r(a, b); AFTER(d) return x;
}
int unlink(const char *p) {
  REAL(int, "unlink", const char *)
  int d = 0;
  if (plen && path_hit(p)) d = decide(OP_UNLINK);
  if (d == 1) return -1;
  int x = r(p); AFTER(d) return x;
}
int unlinkat(int dfd, const char *p, int fl) {
  REAL(int, "unlinkat", int, const char *, int)
  int d = 0;
  if (plen && !(fl & AT_REMOVEDIR) && path_hit(p)) d = decide(OP_UNLINK);
  if (d == 1) return -1;
  int x = r(dfd, p, fl); AFTER(d) return x;
}
#define OPENBODY(name) \
  static int (*r)(const char *, int, ...); \
  if (!r) r = dlsym(RTLD_NEXT, name); \
  mode_t m = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
  int d = 0; \
  if (plen && (fl & (O_WRONLY | O_RDWR)) && path_hit(p)) d = decide(OP_OPEN); \
  if (d == 1) return -1; \
  int x = r(p, fl, m); AFTER(d) return x;
int open(const char *p, int fl, ...) { OPENBODY("open") }
int open64(const char *p, int fl, ...) { OPENBODY("open64") }
