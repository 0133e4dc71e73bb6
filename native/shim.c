/* Preloaded into the interpreter by kzmon/shim.py.
 *
 * 1. File system faults: counts the libc calls that touch files below a scope
 *    directory and kills the process at, or fails, or shortens the k-th one.
 * 2. memcmp watch: counts native comparisons of a secret value.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE = 0, KILL_BEFORE, KILL_AFTER, ERROR, SHORT_KILL, SHORT_ERROR, ERROR_ON };

static char scope[PATH_MAX];
static size_t scope_len;
static volatile int armed;
static int mode, err, hit;
static long target, count;
static char logbuf[1 << 18];
static size_t loglen;

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static int in_scope(const char *p) {
  return p && strncmp(p, scope, scope_len) == 0 && (p[scope_len] == '/' || !p[scope_len]);
}

static void absolute(const char *path, char *out) {
  if (path[0] == '/' || !getcwd(out, PATH_MAX - 2)) {
    snprintf(out, PATH_MAX, "%s", path);
  } else {
    size_t l = strlen(out);
    snprintf(out + l, PATH_MAX - l, "/%s", path);
  }
}

static int fd_path(int fd, char *out) {
  char p[64];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, out, PATH_MAX - 1);
  if (n < 0) return 0;
  out[n] = 0;
  return out[0] == '/';
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* Returns what to do: 0 go on, 1 fail, 2 go on and die, 3 half and die, 4 half and fail later. */
static int step(char cls, const char *op, const char *path) {
  int saved = errno, r = 0;
  count++;
  int n = snprintf(logbuf + loglen, sizeof logbuf - loglen, "%c %s %s\n", cls, op, path);
  if (n > 0 && loglen + n < sizeof logbuf) loglen += n;
  if (mode != NONE && (count == target || (hit && mode >= SHORT_ERROR))) {
    int first = !hit;
    hit = 1;
    switch (mode) {
      case KILL_BEFORE: die();
      case KILL_AFTER: r = 2; break;
      case ERROR: r = 1; break;
      case SHORT_KILL: r = 3; break;
      case SHORT_ERROR: r = first ? 4 : (cls == 'D' ? 1 : 0); break;
      case ERROR_ON: r = cls == 'R' ? 0 : 1; break;
    }
  }
  errno = saved;
  if (r == 1) errno = err;
  return r;
}

static int path_step(char cls, const char *op, int dirfd, const char *path) {
  char a[PATH_MAX], b[PATH_MAX];
  if (!armed || !path) return 0;
  if (dirfd != AT_FDCWD && path[0] != '/' && fd_path(dirfd, b)) {
    snprintf(a, sizeof a, "%.2000s/%.2000s", b, path);
  } else {
    absolute(path, a);
  }
  return in_scope(a) ? step(cls, op, a) : 0;
}

static int fd_step(char cls, const char *op, int fd) {
  char a[PATH_MAX];
  if (!armed || !fd_path(fd, a) || !in_scope(a)) return 0;
  return step(cls, op, a);
}

#define MUTATING(flags) ((flags) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))

#define OPEN(name) \
  int name(const char *path, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, const char *, int, ...) \
    int s = path_step(MUTATING(flags) ? 'W' : 'R', "open", AT_FDCWD, path); \
    if (s == 1) return -1; \
    int r = real_##name(path, flags, m); \
    if (s == 2 || s == 3) die(); \
    return r; \
  }
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
  int name(int d, const char *path, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, int, const char *, int, ...) \
    int s = path_step(MUTATING(flags) ? 'W' : 'R', "open", d, path); \
    if (s == 1) return -1; \
    int r = real_##name(d, path, flags, m); \
    if (s == 2 || s == 3) die(); \
    return r; \
  }
OPENAT(openat)
OPENAT(openat64)

int __open64_2(const char *path, int flags) {
  REAL(int, __open64_2, const char *, int)
  int s = path_step(MUTATING(flags) ? 'W' : 'R', "open", AT_FDCWD, path);
  if (s == 1) return -1;
  int r = real___open64_2(path, flags);
  if (s == 2 || s == 3) die();
  return r;
}

ssize_t write(int fd, const void *buf, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t)
  int s = armed ? fd_step('D', "write", fd) : 0;
  if (s == 1) return -1;
  if (s >= 3 && n > 1) n /= 2;
  ssize_t r = real_write(fd, buf, n);
  if (s == 2 || s == 3) die();
  return r;
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
  int s = armed ? fd_step('D', "pwrite", fd) : 0;
  if (s == 1) return -1;
  if (s >= 3 && n > 1) n /= 2;
  ssize_t r = real_pwrite64(fd, buf, n, o);
  if (s == 2 || s == 3) die();
  return r;
}

ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int)
  int s = armed ? fd_step('D', "writev", fd) : 0;
  if (s == 1) return -1;
  if (s >= 3 && c > 1) c /= 2;
  ssize_t r = real_writev(fd, v, c);
  if (s == 2 || s == 3) die();
  return r;
}

ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
  int s = armed ? fd_step('D', "sendfile", o) : 0;
  if (s == 1) return -1;
  if (s >= 3 && n > 64) n = 32;
  ssize_t r = real_sendfile64(o, i, off, n);
  if (s == 2 || s == 3) die();
  return r;
}

ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
  int s = armed ? fd_step('D', "copy_file_range", o) : 0;
  if (s == 1) return -1;
  ssize_t r = real_copy_file_range(i, io, o, oo, n, f);
  if (s == 2 || s == 3) die();
  return r;
}

ssize_t read(int fd, void *buf, size_t n) {
  REAL(ssize_t, read, int, void *, size_t)
  int s = armed ? fd_step('R', "read", fd) : 0;
  if (s == 1) return -1;
  return real_read(fd, buf, n);
}

int close(int fd) {
  REAL(int, close, int)
  char a[PATH_MAX];
  int s = 0;
  if (armed && fd_path(fd, a) && in_scope(a)) {
    int fl = fcntl(fd, F_GETFL);
    if (fl != -1 && (fl & O_ACCMODE) != O_RDONLY) s = step('C', "close", a);
  }
  int r = real_close(fd);
  if (s == 1) { errno = err; return -1; }
  if (s == 2 || s == 3) die();
  return r;
}

#define PATH1(name, cls, decl, dirfd, path, ...) \
  int name decl { \
    static int (*real) decl; \
    if (!real) real = (int (*) decl)dlsym(RTLD_NEXT, #name); \
    int s = armed ? path_step(cls, #name, dirfd, path) : 0; \
    if (s == 1) return -1; \
    int r = real(__VA_ARGS__); \
    if (s == 2 || s == 3) die(); \
    return r; \
  }
#define FD1(name, cls, decl, fd, ...) \
  int name decl { \
    static int (*real) decl; \
    if (!real) real = (int (*) decl)dlsym(RTLD_NEXT, #name); \
    int s = armed ? fd_step(cls, #name, fd) : 0; \
    if (s == 1) return -1; \
    int r = real(__VA_ARGS__); \
    if (s == 2 || s == 3) die(); \
    return r; \
  }

PATH1(rename, 'W', (const char *a, const char *b), AT_FDCWD, b, a, b)
PATH1(renameat, 'W', (int d, const char *a, int e, const char *b), e, b, d, a, e, b)
PATH1(renameat2, 'W', (int d, const char *a, int e, const char *b, unsigned f), e, b, d, a, e, b, f)
PATH1(unlink, 'W', (const char *a), AT_FDCWD, a, a)
PATH1(unlinkat, 'W', (int d, const char *a, int f), d, a, d, a, f)
PATH1(remove, 'W', (const char *a), AT_FDCWD, a, a)
PATH1(chmod, 'M', (const char *a, mode_t m), AT_FDCWD, a, a, m)
PATH1(fchmodat, 'M', (int d, const char *a, mode_t m, int f), d, a, d, a, m, f)
PATH1(chown, 'M', (const char *a, uid_t u, gid_t g), AT_FDCWD, a, a, u, g)
PATH1(mkdir, 'W', (const char *a, mode_t m), AT_FDCWD, a, a, m)
PATH1(rmdir, 'W', (const char *a), AT_FDCWD, a, a)
PATH1(link, 'W', (const char *a, const char *b), AT_FDCWD, b, a, b)
PATH1(linkat, 'W', (int d, const char *a, int e, const char *b, int f), e, b, d, a, e, b, f)
PATH1(symlink, 'W', (const char *a, const char *b), AT_FDCWD, b, a, b)
PATH1(truncate64, 'W', (const char *a, off64_t l), AT_FDCWD, a, a, l)
FD1(ftruncate64, 'W', (int fd, off64_t l), fd, fd, l)
FD1(fchmod, 'M', (int fd, mode_t m), fd, fd, m)
FD1(fsync, 'S', (int fd), fd, fd)
FD1(fdatasync, 'S', (int fd), fd, fd)

void kz_arm(const char *dir, int m, long k, int e) {
  snprintf(scope, sizeof scope, "%s", dir);
  scope_len = strlen(scope);
  mode = m; target = k; err = e; count = 0; hit = 0; loglen = 0; logbuf[0] = 0;
  armed = 1;
}
void kz_disarm(void) { armed = 0; }
long kz_count(void) { return count; }
int kz_hit(void) { return hit; }
const char *kz_log(void) { logbuf[loglen] = 0; return logbuf; }

/* ---- memcmp watch ---- */
static unsigned char pat[64];
static size_t pat_len;
static volatile int watching;
static volatile long hits;

static inline int same(const unsigned char *p, size_t n) {
  for (size_t i = 0; i < n; i++) if (p[i] != pat[i]) return 0;
  return 1;
}

__attribute__((optimize("no-tree-loop-distribute-patterns")))
int memcmp(const void *va, const void *vb, size_t n) {
  const unsigned char *a = va, *b = vb;
  if (watching && pat_len && n >= pat_len && (same(a, pat_len) || same(b, pat_len))) hits++;
  while (n >= 8 && *(const unsigned long *)a == *(const unsigned long *)b) { a += 8; b += 8; n -= 8; }
  for (; n; n--, a++, b++) if (*a != *b) return *a - *b;
  return 0;
}

void kz_watch(const unsigned char *p, size_t n) {
  watching = 0;
  hits = 0;
  pat_len = n > sizeof pat ? sizeof pat : n;
  for (size_t i = 0; i < pat_len; i++) pat[i] = p[i];
  watching = 1;
}
long kz_unwatch(void) { watching = 0; return hits; }
