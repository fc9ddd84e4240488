/* Deterministic fault-injection seam between the process and the C library.
 *
 * LD_PRELOADed into every simulation worker.  Inert until sim_begin() is
 * called.  While active it counts every storage operation on files below
 * one of the root directories, can make the Nth such operation fail, come
 * back short, be interrupted or kill the process, and records all of them.
 * It also owns the allocation budget, the wall clock and the locale codeset.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_CLOSE, OP_MMAP, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_STAT, OP_LIST, NOPS };
enum { F_NONE, F_ERR, F_SHORT, F_EINTR, F_KILL, F_TORNKILL, F_EOF };

#define MAXF 8
#define MAXLOG 65536
struct fault {
  int mask;      /* bit set of ops */
  long nth;      /* 1-based index among the operations matching mask */
  int kind, err;
  long arg;      /* per mille kept for short/torn */
  int sticky;    /* stays from nth on */
  long seen, fired;
};
static struct fault faults[MAXF];
static int nfaults = 0;
static volatile int active = 0;
static char root[512];
static size_t rootlen = 0;
static char root2[512];
static size_t root2len = 0;
static long counts[NOPS], injected[8];
static struct { unsigned char op, fault; unsigned short fdhash; int size; } *oplog = NULL;
static long nlog = 0;
static long rw_open = 0; /* opens of tracked files with write access */
static long wmaps = 0;   /* shared writable mappings of tracked files */

static size_t alloc_limit = 0;   /* single allocations above this fail */
static size_t alloc_big = 0;     /* threshold that makes an allocation "large" */
static long alloc_nth = 0, alloc_seen = 0, alloc_failed = 0;
static size_t alloc_max = 0;

static double clock_off = 0;
static int clock_set = 0;
static double clock_base = 0, clock_step = 0;
static long clock_reads = 0;
static char codeset[64];

#define REAL(name) static __typeof__(&name) r_##name; if (!r_##name) r_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int under(const char *p) {
  if (rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0)) return 1;
  if (root2len && !strncmp(p, root2, root2len) && (p[root2len] == '/' || p[root2len] == 0)) return 1;
  return 0;
}
static unsigned short lasthash;
static unsigned short hashname(const char *b) {
  const char *s = strrchr(b, '/'); s = s ? s + 1 : b;
  unsigned h = 5381; while (*s) h = h * 33 + (unsigned char)*s++;
  return (unsigned short)(h ^ (h >> 16));
}
static int tracked_fd(int fd) {
  if (!active || fd < 0) return 0;
  char p[64], b[1024];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, p, b, sizeof b - 1);
  if (n <= 0) return 0;
  b[n] = 0;
  if (!under(b)) return 0;
  lasthash = hashname(b);
  return 1;
}
static int tracked_path(int dirfd, const char *path) {
  if (!active || !path) return 0;
  char b[2048];
  if (path[0] == '/') { if (!under(path)) return 0; lasthash = hashname(path); return 1; }
  if (dirfd == AT_FDCWD) { long n = syscall(SYS_getcwd, b, sizeof b); if (n <= 0) return 0; }
  else {
    char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", dirfd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, p, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
  }
  if (!under(b)) return 0;
  lasthash = hashname(path);
  return 1;
}
static void logop(int op, int fk, long size) {
  if (oplog && nlog < MAXLOG) { oplog[nlog].op = op; oplog[nlog].fault = fk; oplog[nlog].fdhash = lasthash; oplog[nlog].size = (int)(size > 0x7fffffff ? 0x7fffffff : size); }
  nlog++;
}
/* Returns the fault to apply to this operation or NULL. */
static struct fault *hit(int op, long size) {
  counts[op]++;
  struct fault *r = NULL;
  for (int i = 0; i < nfaults; i++) {
    struct fault *f = &faults[i];
    if (!(f->mask & (1 << op))) continue;
    f->seen++;
    if (!r && (f->seen == f->nth || (f->sticky && f->seen > f->nth))) r = f;
  }
  if (r) { r->fired++; injected[r->kind]++; }
  logop(op, r ? r->kind : 0, size);
  return r;
}
static void die(void) { syscall(SYS_exit_group, 137); }

/* ---------------------------------------------------------------- control */
void sim_begin(const char *rt, const char *rt2) {
  if (!oplog) oplog = mmap(NULL, MAXLOG * sizeof *oplog, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  strncpy(root, rt ? rt : "", sizeof root - 1); rootlen = strlen(root);
  strncpy(root2, rt2 ? rt2 : "", sizeof root2 - 1); root2len = strlen(root2);
  memset(counts, 0, sizeof counts); memset(injected, 0, sizeof injected);
  nlog = 0; nfaults = 0; rw_open = 0; wmaps = 0;
  active = 1;
}
void sim_end(void) { active = 0; nfaults = 0; }
void sim_pause(int on) { active = !on; }
void sim_clear_faults(void) { nfaults = 0; }
int sim_add_fault(int mask, long nth, int kind, int err, long arg, int sticky) {
  if (nfaults >= MAXF) return -1;
  struct fault f = {mask, nth, kind, err, arg, sticky, 0, 0};
  faults[nfaults] = f;
  return nfaults++;
}
long sim_fault_fired(int i) { return i < nfaults ? faults[i].fired : -1; }
long sim_count(int op) { return op < NOPS ? counts[op] : -1; }
long sim_injected(int k) { return k < 8 ? injected[k] : -1; }
long sim_nlog(void) { return nlog; }
void *sim_log(void) { return oplog; }
long sim_rw_open(void) { return rw_open; }
long sim_wmaps(void) { return wmaps; }
void sim_alloc(long limit, long big, long nth) { alloc_seen = 0; alloc_failed = 0; alloc_max = 0; alloc_nth = nth; alloc_big = big; alloc_limit = limit; }
long sim_alloc_seen(void) { return alloc_seen; }
long sim_alloc_failed(void) { return alloc_failed; }
long sim_alloc_max(void) { return (long)alloc_max; }
void sim_clock(int set, double base, double step, double off) { clock_set = set; clock_base = base; clock_step = step; clock_off = off; clock_reads = 0; }
long sim_clock_reads(void) { return clock_reads; }
void sim_codeset(const char *c) { strncpy(codeset, c ? c : "", sizeof codeset - 1); }

/* ---------------------------------------------------------------- open etc. */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!(flags & O_DIRECTORY) && tracked_path(dirfd, path)) {
    struct fault *f = hit(OP_OPEN, flags & (O_ACCMODE | O_TRUNC | O_CREAT));
    if (f) {
      if (f->kind == F_ERR) { errno = f->err; return -1; }
      if (f->kind == F_EINTR) { errno = EINTR; return -1; }
      if (f->kind == F_KILL || f->kind == F_TORNKILL) die();
    }
    if ((flags & O_ACCMODE) != O_RDONLY) rw_open++;
  }
  return (int)syscall(SYS_openat, dirfd, path, flags, mode);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  if (tracked_fd(fd)) {
    struct fault *f = hit(OP_CLOSE, 0);
    if (f) {
      if (f->kind == F_KILL || f->kind == F_TORNKILL) die();
      if (f->kind == F_ERR) { syscall(SYS_close, fd); errno = f->err; return -1; }
    }
  }
  return (int)syscall(SYS_close, fd);
}

/* Common handling for reads; returns -2 to go on, or the result. */
static ssize_t pre_read(size_t *n) {
  struct fault *f = hit(OP_READ, (long)*n);
  if (!f) return -2;
  switch (f->kind) {
    case F_ERR: errno = f->err; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_EOF: return 0;
    case F_SHORT: if (*n > 1) { size_t k = *n * f->arg / 1000; *n = k < 1 ? 1 : k; } return -2;
    case F_KILL: case F_TORNKILL: die();
  }
  return -2;
}
static ssize_t pre_write(size_t *n, int *thenkill) {
  struct fault *f = hit(OP_WRITE, (long)*n);
  *thenkill = 0;
  if (!f) return -2;
  switch (f->kind) {
    case F_ERR: errno = f->err; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_SHORT: if (*n > 1) { size_t k = *n * f->arg / 1000; *n = k < 1 ? 1 : k; } return -2;
    case F_KILL: die(); break;
    case F_TORNKILL: *n = *n * f->arg / 1000; *thenkill = 1; return -2;
  }
  return -2;
}
ssize_t read(int fd, void *b, size_t n) {
  if (n && tracked_fd(fd)) { ssize_t r = pre_read(&n); if (r != -2) return r; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (n && tracked_fd(fd)) { ssize_t r = pre_read(&n); if (r != -2) return r; }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
  int k = 0;
  if (n && tracked_fd(fd)) { ssize_t r = pre_write(&n, &k); if (r != -2) return r; }
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (k) die();
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  int k = 0;
  if (n && tracked_fd(fd)) { ssize_t r = pre_write(&n, &k); if (r != -2) return r; }
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
  if (k) die();
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }

int ftruncate(int fd, off_t len) {
  if (tracked_fd(fd)) {
    struct fault *f = hit(OP_TRUNC, (long)len);
    if (f) { if (f->kind == F_ERR) { errno = f->err; return -1; } if (f->kind == F_KILL || f->kind == F_TORNKILL) die(); }
  }
  return (int)syscall(SYS_ftruncate, fd, len);
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int fsync(int fd) {
  if (tracked_fd(fd)) {
    struct fault *f = hit(OP_SYNC, 0);
    if (f) { if (f->kind == F_ERR) { errno = f->err; return -1; } if (f->kind == F_KILL || f->kind == F_TORNKILL) die(); }
  }
  return (int)syscall(SYS_fsync, fd);
}
int msync(void *a, size_t l, int fl) { return (int)syscall(SYS_msync, a, l, fl); }

static void *do_mmap(void *a, size_t l, int prot, int flags, int fd, off_t o) {
  if (fd >= 0 && active && tracked_fd(fd)) {
    struct fault *f = hit(OP_MMAP, (long)l);
    if (f) { if (f->kind == F_ERR) { errno = f->err; return MAP_FAILED; } if (f->kind == F_KILL || f->kind == F_TORNKILL) die(); }
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED)) wmaps++;
  }
  return (void *)syscall(SYS_mmap, a, l, prot, flags, fd, o);
}
void *mmap(void *a, size_t l, int prot, int flags, int fd, off_t o) { return do_mmap(a, l, prot, flags, fd, o); }
void *mmap64(void *a, size_t l, int prot, int flags, int fd, off64_t o) { return do_mmap(a, l, prot, flags, fd, o); }

int rename(const char *a, const char *b) {
  REAL(rename);
  if (tracked_path(AT_FDCWD, b)) {
    struct fault *f = hit(OP_RENAME, 0);
    if (f) { if (f->kind == F_ERR) { errno = f->err; return -1; } if (f->kind == F_KILL || f->kind == F_TORNKILL) die(); }
  }
  return r_rename(a, b);
}
int unlink(const char *a) {
  REAL(unlink);
  if (tracked_path(AT_FDCWD, a)) {
    struct fault *f = hit(OP_UNLINK, 0);
    if (f) { if (f->kind == F_ERR) { errno = f->err; return -1; } if (f->kind == F_KILL || f->kind == F_TORNKILL) die(); }
  }
  return r_unlink(a);
}
#define STATFN(name, type) int name(const char *a, struct type *st) { \
  REAL(name); \
  if (tracked_path(AT_FDCWD, a)) { \
    struct fault *f = hit(OP_STAT, 0); \
    if (f && f->kind == F_ERR) { errno = f->err; return -1; } \
  } \
  return r_##name(a, st); \
}
STATFN(stat, stat)
STATFN(lstat, stat)
STATFN(stat64, stat64)
STATFN(lstat64, stat64)
DIR *opendir(const char *a) {
  REAL(opendir);
  if (tracked_path(AT_FDCWD, a)) {
    struct fault *f = hit(OP_LIST, 0);
    if (f && f->kind == F_ERR) { errno = f->err; return NULL; }
  }
  return r_opendir(a);
}
int mkdir(const char *a, mode_t m) {
  REAL(mkdir);
  if (tracked_path(AT_FDCWD, a)) {
    struct fault *f = hit(OP_MKDIR, 0);
    if (f) { if (f->kind == F_ERR) { errno = f->err; return -1; } if (f->kind == F_KILL || f->kind == F_TORNKILL) die(); }
  }
  return r_mkdir(a, m);
}

/* ---------------------------------------------------------------- stdio (numpy tofile/fromfile)
 * glibc's own write() inside fwrite/fclose cannot be interposed, so the
 * effect is reproduced: a fault on fewer bytes than the stdio buffer shows
 * only when the buffer is flushed (fflush/fclose return EOF), larger ones at
 * fwrite itself.
 */
#define MAXDEF 16
static struct { FILE *fp; int err; } deferred[MAXDEF];
static int ndef = 0;
static void defer(FILE *fp, int err) { if (ndef < MAXDEF) { deferred[ndef].fp = fp; deferred[ndef].err = err; ndef++; } }
static int take_deferred(FILE *fp) {
  for (int i = 0; i < ndef; i++) if (deferred[i].fp == fp) { int e = deferred[i].err; deferred[i] = deferred[--ndef]; return e; }
  return 0;
}
size_t fread(void *p, size_t sz, size_t n, FILE *fp) {
  REAL(fread);
  if (active && sz && n && tracked_fd(fileno(fp))) {
    struct fault *f = hit(OP_READ, (long)(sz * n));
    if (f) switch (f->kind) {
      case F_ERR: { size_t k = n * f->arg / 1000; size_t g = k ? r_fread(p, sz, k, fp) : 0; fp->_flags |= 0x20; errno = f->err; return g; }
      case F_EOF: { size_t k = n * f->arg / 1000; size_t g = k ? r_fread(p, sz, k, fp) : 0; fp->_flags |= 0x10; return g; }
      case F_KILL: case F_TORNKILL: die();
      default: break; /* stdio itself retries short and interrupted reads */
    }
  }
  return r_fread(p, sz, n, fp);
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
  REAL(fwrite);
  if (active && sz && n && tracked_fd(fileno(fp))) {
    struct fault *f = hit(OP_WRITE, (long)(sz * n));
    if (f) switch (f->kind) {
      case F_ERR: case F_EINTR: {
        if (f->kind == F_EINTR) break;
        if (sz * n < 4096) { if (nlog <= MAXLOG) oplog[nlog - 1].fault = 7; injected[7]++; injected[F_ERR]--; defer(fp, f->err); return n; }
        size_t k = n * f->arg / 1000; size_t g = k ? r_fwrite(p, sz, k, fp) : 0; fp->_flags |= 0x20; errno = f->err; return g; }
      case F_KILL: die(); break;
      case F_TORNKILL: { size_t k = n * f->arg / 1000; if (k) r_fwrite(p, sz, k, fp); fflush(fp); die(); }
      default: break;
    }
  }
  return r_fwrite(p, sz, n, fp);
}
int fflush(FILE *fp) {
  REAL(fflush);
  if (active && fp) { int e = take_deferred(fp); if (e) { defer(fp, e); errno = e; return EOF; } }
  return r_fflush(fp);
}
int fclose(FILE *fp) {
  REAL(fclose);
  if (active && fp) { int e = take_deferred(fp); if (e) { r_fclose(fp); errno = e; return EOF; } }
  return r_fclose(fp);
}

/* ---------------------------------------------------------------- allocations */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static inline int refuse(size_t n) {
  if (__builtin_expect(!alloc_limit && !alloc_big, 1)) return 0;
  if (n > alloc_max) alloc_max = n;
  if (alloc_limit && n > alloc_limit) { alloc_failed++; return 1; }
  if (alloc_big && n >= alloc_big) { alloc_seen++; if (alloc_nth && alloc_seen == alloc_nth) { alloc_failed++; return 1; } }
  return 0;
}
void *malloc(size_t n) { if (refuse(n)) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { size_t n; if (!__builtin_mul_overflow(a, b, &n) && refuse(n)) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (refuse(n)) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t al, size_t n) { if (refuse(n)) return ENOMEM; *p = __libc_memalign(al, n); return *p ? 0 : ENOMEM; }
void *aligned_alloc(size_t al, size_t n) { if (refuse(n)) { errno = ENOMEM; return NULL; } return __libc_memalign(al, n); }

/* ---------------------------------------------------------------- clock and locale */
static double simnow(void) { clock_reads++; double t = clock_base; clock_base += clock_step; return t; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (clock_set && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    double t = simnow() + clock_off; ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9); return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *tv, void *tz) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
char *nl_langinfo(nl_item it) {
  REAL(nl_langinfo);
  if (it == CODESET && codeset[0]) return codeset;
  return r_nl_langinfo(it);
}
