// libsimio: the I/O seam of the simulator (LD_PRELOAD).
//
// Every libc I/O call on a path below the scratch root (or on a descriptor opened there) becomes a numbered
// "point".  At each point the simulator decides what happens: proceed, fail with an errno, transfer less than
// asked, be interrupted by a signal, kill the process before/after/in the middle of the operation, or damage the
// data read.  Decisions come either from a table of faults (one process, "local" mode) or from a controller which
// also decides which process runs next ("remote" mode: the process blocks at the point until it is given the turn).
// Directory listings are delivered in a deterministic order and getrandom() can be made deterministic, as those are
// sources of nondeterminism too.  operator new is interposed to inject allocation failures in the C++ code.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum Kind { K_NONE = 0, K_ERR = 1, K_SHORT = 2, K_EINTR = 3, K_SIGINT = 4, K_SIGINT_EINTR = 5, K_CRASH_BEFORE = 6,
            K_CRASH_AFTER = 7, K_TORN = 8, K_STICKY = 9, K_FLIP = 10, K_ZERO = 11, K_EOF = 12 };

#define MAXLOG 16384
#define MAXFAULT 64
#define PLEN 120

struct Fault { long idx; int kind; long arg; long arg2; int fired; };
struct Entry { int op; int kind; long size; long ret; char path[PLEN]; };
struct Region {
  int armed, remote_fd, nfault;
  long next, nlog, alloc_next, alloc_fail, alloc_fired;
  int alloc_armed, sticky_errno, sticky_fired;
  uint64_t rnd; int rnd_on; uint64_t dirseed;
  Fault f[MAXFAULT];
  Entry log[MAXLOG];
};
static Region *R = 0;
static char root[PATH_MAX]; static size_t rootlen = 0;
#define MAXFD 4096
static char *fdpath[MAXFD]; static unsigned char fdw[MAXFD];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0; \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name)

// op classes; the names are kept in sync with sim/io.py
enum Op { P_OPENR, P_OPENW, P_OPENDIR, P_CLOSER, P_CLOSEW, P_READ, P_WRITE, P_STAT, P_MKDIR, P_RMDIR, P_UNLINK,
          P_RENAME, P_ATTR, P_TRUNC, P_SYNC, P_LINK, P_NET, P_LOCK, P_SLEEP, P_USER };

extern "C" {
void simio_init(const char *r) {
  strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
  if (!R) { R = (Region *) mmap(0, sizeof(Region), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(R, 0, sizeof *R); R->remote_fd = -1; }
}
// a private region for this process (used by the nodes of a multi-process run)
void simio_private(void) { Region *n = (Region *) mmap(0, sizeof(Region), PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS, -1, 0); *n = *R; R = n; }
void simio_reset(void) { if (!R) return; R->armed = 0; R->nfault = 0; R->next = 0; R->nlog = 0; R->alloc_armed = 0;
  R->alloc_next = 0; R->alloc_fail = -1; R->alloc_fired = 0; R->sticky_errno = 0; R->sticky_fired = 0; }
void simio_arm(int on) { if (R) R->armed = on; }
void simio_fault(long idx, int kind, long arg, long arg2) { if (R && R->nfault < MAXFAULT) { Fault *f = &R->f[R->nfault++];
  f->idx = idx; f->kind = kind; f->arg = arg; f->arg2 = arg2; f->fired = 0; } }
void simio_clear_faults(void) { if (R) { R->nfault = 0; R->sticky_errno = 0; } }
int simio_fired(int i) { return R->f[i].fired; }
int simio_sticky_fired(void) { return R->sticky_fired; }
long simio_next(void) { return R->next; }
long simio_nlog(void) { return R->nlog; }
void simio_entry(long i, int *op, int *kind, long *size, long *ret, char *path) { Entry *e = &R->log[i]; *op = e->op;
  *kind = e->kind; *size = e->size; *ret = e->ret; memcpy(path, e->path, PLEN); }
void simio_remote(int fd) { R->remote_fd = fd; }
void simio_random(int on, uint64_t seed) { R->rnd_on = on; R->rnd = seed; }
void simio_dirseed(uint64_t seed) { R->dirseed = seed; }
void simio_alloc(int on, long fail) { R->alloc_armed = on; if (on) { R->alloc_next = 0; R->alloc_fail = fail; R->alloc_fired = 0; } }
long simio_alloc_count(void) { return R->alloc_next; }
long simio_alloc_fired(void) { return R->alloc_fired; }
}

static pthread_t owner; static int owner_set = 0;
extern "C" void simio_owner(void) { owner = pthread_self(); owner_set = 1; }

struct Act { int kind; long arg, arg2; Entry *e; };
static uint64_t mix(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static Act point(int op, const char *path, long size) {
  Act a = {K_NONE, 0, 0, 0};
  if (!R || !R->armed) return a;
  if (owner_set && !pthread_equal(owner, pthread_self())) return a;
  int se = errno;
  long i = R->next++;
  const char *p = path ? path : "";
  if (rootlen && !strncmp(p, root, rootlen)) p += rootlen;
  if (R->remote_fd >= 0) {  // hand over the control: {op, size, path}, the answer is {kind, arg, arg2}
    struct { int op; int pad; long size; char path[PLEN]; } q; memset(&q, 0, sizeof q);
    q.op = op; q.size = size; strncpy(q.path, p, PLEN - 1);
    if (syscall(SYS_write, R->remote_fd, &q, sizeof q) != (long) sizeof q) _exit(98);
    long ans[3]; size_t got = 0;
    while (got < sizeof ans) { long n = syscall(SYS_read, R->remote_fd, (char *) ans + got, sizeof ans - got);
      if (n <= 0) _exit(98); got += n; }
    a.kind = ans[0]; a.arg = ans[1]; a.arg2 = ans[2];
  } else {
    for (int k = 0; k < R->nfault; ++k) if (R->f[k].idx == i) { a.kind = R->f[k].kind; a.arg = R->f[k].arg;
      a.arg2 = R->f[k].arg2; R->f[k].fired = 1; break; }
    if (a.kind == K_STICKY) R->sticky_errno = a.arg;
  }
  if (R->sticky_errno && (op == P_WRITE || op == P_MKDIR || op == P_OPENW || op == P_LINK) &&
      (a.kind == K_NONE || a.kind == K_STICKY)) { a.kind = K_ERR; a.arg = R->sticky_errno; R->sticky_fired++; }
  else if (a.kind == K_STICKY) a.kind = K_NONE;
  if (R->nlog < MAXLOG) { Entry *e = &R->log[R->nlog++]; e->op = op; e->kind = a.kind; e->size = size; e->ret = -999;
    strncpy(e->path, p, PLEN - 1); e->path[PLEN - 1] = 0; a.e = e; }
  if (a.kind == K_CRASH_BEFORE) _exit(137);
  if (a.kind == K_SIGINT || a.kind == K_SIGINT_EINTR) raise(SIGINT);
  errno = se;
  return a;
}
extern "C" int simio_point(int op, const char *label, long size, long *arg) { Act a = point(op, label, size);
  if (arg) *arg = a.arg; if (a.e) a.e->ret = 0; return a.kind; }

static long done(Act &a, long ret) { int se = errno; if (a.e) a.e->ret = ret;
  if (a.kind == K_CRASH_AFTER || a.kind == K_TORN) _exit(137); errno = se; return ret; }
// generic failures; returns 1 if the call must fail now
static int fails(Act &a, int interruptible) {
  if (a.kind == K_ERR) { if (a.e) a.e->ret = -1; errno = a.arg; return 1; }
  if (interruptible && (a.kind == K_EINTR || a.kind == K_SIGINT_EINTR)) { if (a.e) a.e->ret = -1; errno = EINTR; return 1; }
  return 0;
}

static int tracked_path(const char *p) { return rootlen && p && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }
// resolve (dirfd, name) to a path; 0 if not tracked
static const char *resolve(int dirfd, const char *p, char *buf) {
  if (!rootlen || !p) return 0;
  if (p[0] == '/') return tracked_path(p) ? p : 0;
  if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) { snprintf(buf, PATH_MAX, "%s/%s", fdpath[dirfd], p); return buf; }
  return 0;
}
static const char *fdp(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
static void track(int fd, const char *p, int w) { if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); fdw[fd] = w; } }
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; } }
extern "C" int simio_nfds(void) { int n = 0; for (int i = 0; i < MAXFD; ++i) n += fdpath[i] != 0; return n; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, openat64, int, const char *, int, ...);
  char buf[PATH_MAX]; const char *p = resolve(dirfd, path, buf);
  if (!p) return real_openat64(dirfd, path, flags, mode);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  Act a = point((flags & O_DIRECTORY) ? P_OPENDIR : w ? P_OPENW : P_OPENR, p, 0);
  if (fails(a, 1)) return -1;
  int fd = real_openat64(dirfd, path, flags, mode);
  if (fd >= 0) track(fd, p, (flags & O_ACCMODE) != O_RDONLY);
  return done(a, fd >= 0 ? 0 : -1), fd;
}
extern "C" {
#define OPENARGS mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  REAL(int, close, int);
  const char *p = fdp(fd);
  if (!p) return real_close(fd);
  Act a = point(fdw[fd] ? P_CLOSEW : P_CLOSER, p, 0);
  untrack(fd);
  int r = real_close(fd);
  if (a.kind == K_ERR) { if (a.e) a.e->ret = -1; errno = a.arg; return -1; }
  return done(a, r);
}
static void damage(Act &a, char *buf, ssize_t n) {
  if (n <= 0) return;
  if (a.kind == K_FLIP) buf[a.arg % n] ^= (char) (a.arg2 ? a.arg2 : 1);
  if (a.kind == K_ZERO) { long o = a.arg % n, l = a.arg2; if (l > n - o) l = n - o; memset(buf + o, 0, l); }
}
static size_t shorter(Act &a, size_t n) {
  if ((a.kind == K_SHORT || a.kind == K_TORN) && n > 1) { size_t k = a.arg > 0 ? a.arg : n / 2; return k >= n ? n - 1 : k; }
  return n;
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  const char *p = fdp(fd); if (!p) return real_read(fd, b, n);
  Act a = point(P_READ, p, n); if (fails(a, 1)) return -1;
  if (a.kind == K_EOF) return done(a, 0);
  ssize_t r = real_read(fd, b, shorter(a, n)); damage(a, (char *) b, r); return done(a, r);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  REAL(ssize_t, pread64, int, void *, size_t, off64_t);
  const char *p = fdp(fd); if (!p) return real_pread64(fd, b, n, o);
  Act a = point(P_READ, p, n); if (fails(a, 1)) return -1;
  ssize_t r = real_pread64(fd, b, shorter(a, n), o); damage(a, (char *) b, r); return done(a, r);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  const char *p = fdp(fd); if (!p) return real_write(fd, b, n);
  Act a = point(P_WRITE, p, n); if (fails(a, 1)) return -1;
  if (a.kind == K_TORN && n <= 1) _exit(137);
  return done(a, real_write(fd, b, shorter(a, n)));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  const char *p = fdp(fd); if (!p) return real_pwrite64(fd, b, n, o);
  Act a = point(P_WRITE, p, n); if (fails(a, 1)) return -1;
  return done(a, real_pwrite64(fd, b, shorter(a, n), o));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  const char *p = fdp(fd); if (!p) return real_writev(fd, v, c);
  Act a = point(P_WRITE, p, c); if (fails(a, 1)) return -1;
  return done(a, real_writev(fd, v, c));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
  const char *p = fdp(o); if (!p) return real_sendfile64(o, i, off, n);
  Act a = point(P_WRITE, p, n); if (fails(a, 1)) return -1;
  return done(a, real_sendfile64(o, i, off, n));
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  const char *p = fdp(o); if (!p) return real_copy_file_range(i, io, o, oo, n, f);
  Act a = point(P_WRITE, p, n); if (fails(a, 1)) return -1;
  return done(a, real_copy_file_range(i, io, o, oo, n, f));
}
int ftruncate64(int fd, off64_t l) {
  REAL(int, ftruncate64, int, off64_t);
  const char *p = fdp(fd); if (!p) return real_ftruncate64(fd, l);
  Act a = point(P_TRUNC, p, l); if (fails(a, 1)) return -1; return done(a, real_ftruncate64(fd, l));
}
int fsync(int fd) {
  REAL(int, fsync, int);
  const char *p = fdp(fd); if (!p) return real_fsync(fd);
  Act a = point(P_SYNC, p, 0); if (fails(a, 0)) return -1; return done(a, 0);
}
int fdatasync(int fd) {
  REAL(int, fdatasync, int);
  const char *p = fdp(fd); if (!p) return real_fdatasync(fd);
  Act a = point(P_SYNC, p, 0); if (fails(a, 0)) return -1; return done(a, 0);
}
int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (r >= 0 && fdp(fd)) track(r, fdp(fd), fdw[fd]); return r; }
int dup2(int fd, int n) { REAL(int, dup2, int, int); int r = real_dup2(fd, n); if (r >= 0 && fdp(fd) && fd != n) track(r, fdp(fd), fdw[fd]); return r; }
int dup3(int fd, int n, int fl) { REAL(int, dup3, int, int, int); int r = real_dup3(fd, n, fl); if (r >= 0 && fdp(fd) && fd != n) track(r, fdp(fd), fdw[fd]); return r; }
int fcntl64(int fd, int cmd, ...) {
  REAL(int, fcntl64, int, int, ...);
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  const char *p = fdp(fd);
  if (p && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {  // never block for real: retry whenever the turn comes back
    int c = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
    for (int k = 0; k < 10000; ++k) { Act a = point(P_LOCK, p, k); if (fails(a, 1)) return -1;
      int r = real_fcntl64(fd, c, arg); if (r == 0 || (errno != EAGAIN && errno != EACCES)) return done(a, r), r; }
    errno = EDEADLK; return -1;
  }
  int r = real_fcntl64(fd, cmd, arg);
  if (r >= 0 && p && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) track(r, p, fdw[fd]);
  return r;
}
int flock(int fd, int op) {
  REAL(int, flock, int, int);
  const char *p = fdp(fd); if (!p) return real_flock(fd, op);
  if (op & (LOCK_NB | LOCK_UN)) { Act a = point(P_LOCK, p, 0); return done(a, real_flock(fd, op)); }
  for (int k = 0; k < 10000; ++k) { Act a = point(P_LOCK, p, k); if (fails(a, 1)) return -1;
    int r = real_flock(fd, op | LOCK_NB); if (r == 0 || errno != EWOULDBLOCK) return done(a, r), r; }
  errno = EDEADLK; return -1;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
  if (!R || !R->armed) return real_clock_nanosleep(c, fl, t, rem);
  point(P_SLEEP, "", 0); return 0;
}

#define PATHOP(ret, name, cls, params, args, dirfd, path) \
  ret name params { REAL(ret, name, __VA_PARAMS_##name); char buf[PATH_MAX]; const char *p = resolve(dirfd, path, buf); \
    if (!p) return real_##name args; Act a = point(cls, p, 0); if (fails(a, 0)) return -1; return done(a, real_##name args); }
#define __VA_PARAMS_mkdir const char *, mode_t
#define __VA_PARAMS_mkdirat int, const char *, mode_t
#define __VA_PARAMS_rmdir const char *
#define __VA_PARAMS_unlink const char *
#define __VA_PARAMS_unlinkat int, const char *, int
#define __VA_PARAMS_chmod const char *, mode_t
#define __VA_PARAMS_fchmodat int, const char *, mode_t, int
#define __VA_PARAMS_chown const char *, uid_t, gid_t
#define __VA_PARAMS_lchown const char *, uid_t, gid_t
#define __VA_PARAMS_fchownat int, const char *, uid_t, gid_t, int
#define __VA_PARAMS_utimensat int, const char *, const struct timespec *, int
#define __VA_PARAMS_truncate64 const char *, off64_t
#define __VA_PARAMS_access const char *, int
#define __VA_PARAMS_faccessat int, const char *, int, int
#define __VA_PARAMS_stat64 const char *, struct stat64 *
#define __VA_PARAMS_lstat64 const char *, struct stat64 *
#define __VA_PARAMS_fstatat64 int, const char *, struct stat64 *, int
#define __VA_PARAMS_symlinkat const char *, int, const char *
#define __VA_PARAMS_symlink const char *, const char *
PATHOP(int, mkdir, P_MKDIR, (const char *q, mode_t m), (q, m), AT_FDCWD, q)
PATHOP(int, mkdirat, P_MKDIR, (int d, const char *q, mode_t m), (d, q, m), d, q)
PATHOP(int, rmdir, P_RMDIR, (const char *q), (q), AT_FDCWD, q)
PATHOP(int, unlink, P_UNLINK, (const char *q), (q), AT_FDCWD, q)
PATHOP(int, unlinkat, P_UNLINK, (int d, const char *q, int f), (d, q, f), d, q)
PATHOP(int, chmod, P_ATTR, (const char *q, mode_t m), (q, m), AT_FDCWD, q)
PATHOP(int, fchmodat, P_ATTR, (int d, const char *q, mode_t m, int f), (d, q, m, f), d, q)
PATHOP(int, chown, P_ATTR, (const char *q, uid_t u, gid_t g), (q, u, g), AT_FDCWD, q)
PATHOP(int, lchown, P_ATTR, (const char *q, uid_t u, gid_t g), (q, u, g), AT_FDCWD, q)
PATHOP(int, fchownat, P_ATTR, (int d, const char *q, uid_t u, gid_t g, int f), (d, q, u, g, f), d, q)
PATHOP(int, utimensat, P_ATTR, (int d, const char *q, const struct timespec *t, int f), (d, q, t, f), d, q)
PATHOP(int, truncate64, P_TRUNC, (const char *q, off64_t l), (q, l), AT_FDCWD, q)
PATHOP(int, access, P_STAT, (const char *q, int m), (q, m), AT_FDCWD, q)
PATHOP(int, faccessat, P_STAT, (int d, const char *q, int m, int f), (d, q, m, f), d, q)
PATHOP(int, stat64, P_STAT, (const char *q, struct stat64 *s), (q, s), AT_FDCWD, q)
PATHOP(int, lstat64, P_STAT, (const char *q, struct stat64 *s), (q, s), AT_FDCWD, q)
PATHOP(int, fstatat64, P_STAT, (int d, const char *q, struct stat64 *s, int f), (d, q, s, f), d, q)
PATHOP(int, symlinkat, P_LINK, (const char *t, int d, const char *q), (t, d, q), d, q)
PATHOP(int, symlink, P_LINK, (const char *t, const char *q), (t, q), AT_FDCWD, q)

// a folder which is a file system of its own
static char device[PATH_MAX];
extern "C" void simio_device(const char *p) { strncpy(device, p, sizeof device - 1); }
static int on_device(const char *p) { size_t n = strlen(device); return !strncmp(p, device, n) && (p[n] == '/' || !p[n]); }
static int crosses(const char *o, const char *n) { return *device && o[0] == '/' && n[0] == '/' && on_device(o) != on_device(n); }

static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl, int at2) {
  REAL(int, renameat, int, const char *, int, const char *);
  REAL(int, renameat2, int, const char *, int, const char *, unsigned);
  char b1[PATH_MAX], b2[PATH_MAX]; const char *p = resolve(nd, n, b1); if (!p) p = resolve(od, o, b2);
  if (!p) return at2 ? real_renameat2(od, o, nd, n, fl) : real_renameat(od, o, nd, n);
  Act a = point(P_RENAME, p, 0); if (fails(a, 0)) return -1;
  if (crosses(o, n)) { errno = EXDEV; return done(a, -1); }
  return done(a, at2 ? real_renameat2(od, o, nd, n, fl) : real_renameat(od, o, nd, n));
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) { return do_rename(od, o, nd, n, fl, 1); }
int link(const char *o, const char *n) {
  REAL(int, link, const char *, const char *); if (!tracked_path(n)) return real_link(o, n);
  Act a = point(P_LINK, n, 0); if (fails(a, 0)) return -1;
  if (crosses(o, n)) { errno = EXDEV; return done(a, -1); }
  return done(a, real_link(o, n));
}
int linkat(int od, const char *o, int nd, const char *n, int f) {
  REAL(int, linkat, int, const char *, int, const char *, int); char b[PATH_MAX]; const char *p = resolve(nd, n, b);
  if (!p) return real_linkat(od, o, nd, n, f);
  Act a = point(P_LINK, p, 0); if (fails(a, 0)) return -1; return done(a, real_linkat(od, o, nd, n, f));
}

// directories: listed in a deterministic order
struct SDir { DIR *d; struct dirent64 **v; int n, pos; };
static SDir sdirs[64];
static SDir *sdir(DIR *d) { for (int i = 0; i < 64; ++i) if (sdirs[i].d == d) return &sdirs[i]; return 0; }
static uint64_t hkey(const char *s) { uint64_t h = 1469598103934665603ull ^ (R ? R->dirseed : 0);
  for (; *s; ++s) { h ^= (unsigned char) *s; h *= 1099511628211ull; } return mix(&h); }
static int cmpd(const void *x, const void *y) { const struct dirent64 *a = *(struct dirent64 **) x, *b = *(struct dirent64 **) y;
  if (R && R->dirseed) { uint64_t p = hkey(a->d_name), q = hkey(b->d_name); if (p != q) return p < q ? -1 : 1; }
  return strcmp(a->d_name, b->d_name); }
static void dropdir(SDir *s) { for (int i = 0; i < s->n; ++i) free(s->v[i]); free(s->v); s->d = 0; s->v = 0; s->n = s->pos = 0; }
static void adddir(DIR *d) {
  REAL(struct dirent64 *, readdir64, DIR *);
  for (int i = 0; i < 64; ++i) if (!sdirs[i].d) { SDir *s = &sdirs[i]; s->d = d; s->n = s->pos = 0; s->v = 0; int cap = 0;
    struct dirent64 *e;
    while ((e = real_readdir64(d))) { if (s->n == cap) { cap = cap ? 2 * cap : 32; s->v = (struct dirent64 **) realloc(s->v, cap * sizeof *s->v); }
      s->v[s->n] = (struct dirent64 *) malloc(sizeof(struct dirent64)); memcpy(s->v[s->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); }
    qsort(s->v, s->n, sizeof *s->v, cmpd); return; }
}
DIR *opendir(const char *q) {
  REAL(DIR *, opendir, const char *);
  if (!tracked_path(q)) return real_opendir(q);
  Act a = point(P_OPENDIR, q, 0); if (fails(a, 0)) return 0;
  DIR *d = real_opendir(q); if (d) adddir(d); done(a, d ? 0 : -1); return d;
}
DIR *fdopendir(int fd) {
  REAL(DIR *, fdopendir, int);
  const char *p = fdp(fd); DIR *d = real_fdopendir(fd); if (d && p) adddir(d); return d;
}
struct dirent64 *readdir64(DIR *d) {
  REAL(struct dirent64 *, readdir64, DIR *);
  SDir *s = sdir(d); if (!s) return real_readdir64(d);
  if (s->pos < s->n) return s->v[s->pos++];
  return 0;
}
int closedir(DIR *d) {
  REAL(int, closedir, DIR *);
  SDir *s = sdir(d); if (s) dropdir(s); untrack(dirfd(d)); return real_closedir(d);
}
void rewinddir(DIR *d) { REAL(void, rewinddir, DIR *); SDir *s = sdir(d); if (s) { s->pos = 0; return; } real_rewinddir(d); }

ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (R && R->rnd_on) { unsigned char *c = (unsigned char *) b; for (size_t i = 0; i < n; ++i) c[i] = (unsigned char) mix(&R->rnd); return n; }
  return syscall(SYS_getrandom, b, n, f);
}
}  // extern "C"

// allocation failures in C++ code
static void *sim_new(size_t n) {
  if (R && R->alloc_armed && (!owner_set || pthread_equal(owner, pthread_self()))) {
    long i = R->alloc_next++;
    if (R->alloc_fail >= 0 && i == R->alloc_fail) { R->alloc_fired++; throw std::bad_alloc(); }
  }
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
