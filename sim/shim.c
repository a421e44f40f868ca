/* LD_PRELOAD seam between the process under simulation and the kernel.
 *
 * Off by default: every wrapper forwards to libc until sim_on(1).  When on, operations on paths below the
 * scratch root are journalled, counted and subjected to the fault plan; mutating operations elsewhere are
 * refused and journalled as escapes.  The realtime and monotonic clocks can be virtualised.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPENR = 1, K_OPENW = 2, K_READ = 4, K_WRITE = 8, K_CLOSER = 16, K_CLOSEW = 32, K_SYNC = 64,
       K_TRUNC = 128, K_RENAME = 256, K_UNLINK = 512, K_MKDIR = 1024, K_ESCAPE = 2048, K_LINK = 4096 };
enum { A_ERR = 1, A_SHORT = 2, A_EINTR = 3, A_CRASH_BEFORE = 4, A_CRASH_AFTER = 5, A_CRASH_TORN = 6,
       A_SIGINT = 7, A_ERR_AFTER_PART = 8, A_CALLBACK = 9, A_LOST = 10 };

typedef struct { int kind, path, fd, err; long req, res; int inj; } jent;
typedef struct { int mask; char sub[64]; long nth; int action; long arg; long times; long seen; long fired; } pent;

#define NJ 65536
#define NP 64
#define NPATH 512
#define NFD 4096
static jent J[NJ];
static long nj, jtotal;
static pent Pl[NP];
static int np_;
static char paths[NPATH][256];
static int npaths;
static int fdpath[NFD];   /* path index + 1 */
static int fdflags[NFD];
static volatile int on;
static char root[PATH_MAX];
static size_t rootlen;
static long capacity = -1, written;
static long budget = -1;
static long opcount;
static void (*cb)(long);
static int gate_req = -1, gate_ok = -1;   /* baton of the process scheduler */
static char gate_sub[64];
static int clock_on;
static int64_t clk_real, clk_mono, clk_step;
static long clk_reads;
static int64_t jump_at[8], jump_by[8];
static int njump;

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* ---- memory ---------------------------------------------------------------------------- */
/* Allocations of at least al_min bytes by the thread that armed it are counted; the al_nth and the following fail. */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static __thread int al_on __attribute__((tls_model("initial-exec")));
static size_t al_min;
static long al_nth, al_times, al_seen, al_fired;
void sim_alloc(long min, long nth, long times) { al_min = min; al_nth = nth; al_times = times; al_seen = al_fired = 0; al_on = min > 0; }
long sim_alloc_seen(void) { return al_seen; }
long sim_alloc_fired(void) { return al_fired; }
static int nomem(size_t n) {
  if (!al_on || n < al_min) return 0;
  al_seen++;
  if (al_nth <= 0 || al_seen < al_nth || al_seen >= al_nth + al_times) return 0;
  al_fired++;
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return nomem(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t k, size_t n) { return nomem(n && k > ((size_t)-1) / n ? (size_t)-1 : k * n) ? 0 : __libc_calloc(k, n); }
void *realloc(void *p, size_t n) { return nomem(n) ? 0 : __libc_realloc(p, n); }

/* ---- control --------------------------------------------------------------------------- */
void sim_reset(const char *r) {
  on = 0; nj = jtotal = 0; np_ = 0; npaths = 0; capacity = -1; written = 0; budget = -1; opcount = 0;
  memset(fdpath, 0, sizeof fdpath); gate_req = gate_ok = -1;
  strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
}
void sim_on(int v) { on = v; }
int sim_is_on(void) { return on; }
int sim_plan_add(int mask, const char *sub, long nth, int action, long arg, long times) {
  if (np_ >= NP) return -1;
  pent *p = &Pl[np_]; memset(p, 0, sizeof *p);
  p->mask = mask; strncpy(p->sub, sub, 63); p->nth = nth; p->action = action; p->arg = arg; p->times = times;
  return np_++;
}
void sim_plan_clear(void) { np_ = 0; capacity = -1; written = 0; }
long sim_plan_fired(int i) { return i < np_ ? Pl[i].fired : -1; }
void sim_capacity(long c) { capacity = c; written = 0; }
void sim_budget(long b) { budget = b; opcount = 0; }
long sim_opcount(void) { return opcount; }
void sim_gate(int req, int ok, const char *sub) { gate_req = req; gate_ok = ok; strncpy(gate_sub, sub, 63); }
void sim_callback(void (*f)(long)) { cb = f; }
long sim_njournal(void) { return nj; }
long sim_jtotal(void) { return jtotal; }
int sim_jget(long i, long *out) {
  if (i < 0 || i >= nj) return -1;
  out[0] = J[i].kind; out[1] = J[i].path; out[2] = J[i].fd; out[3] = J[i].err; out[4] = J[i].req; out[5] = J[i].res; out[6] = J[i].inj;
  return 0;
}
const char *sim_path(int i) { return (i >= 0 && i < npaths) ? paths[i] : ""; }
void sim_jclear(void) { nj = 0; }
int sim_openfds(int *out, int max) {
  int n = 0; for (int i = 0; i < NFD && n < max; i++) if (fdpath[i]) out[n++] = i; return n;
}
int sim_fdpath(int fd) { return (fd >= 0 && fd < NFD) ? fdpath[fd] - 1 : -1; }
void sim_clock(int v, long long real_ns, long long mono_ns, long long step) {
  clk_real = real_ns; clk_mono = mono_ns; clk_step = step; clk_reads = 0; njump = 0; clock_on = v;
}
void sim_clock_jump(long at, long long by) { if (njump < 8) { jump_at[njump] = at; jump_by[njump] = by; njump++; } }
long long sim_clock_now(void) { return clk_real; }
long sim_clock_reads(void) { return clk_reads; }

/* ---- helpers --------------------------------------------------------------------------- */
static void lexnorm(int dirfd, const char *p, char *out) {
  char tmp[PATH_MAX * 2]; tmp[0] = 0;
  if (p[0] != '/') {
    if (dirfd == AT_FDCWD) { if (!getcwd(tmp, PATH_MAX)) tmp[0] = 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, tmp, PATH_MAX - 1); tmp[n > 0 ? n : 0] = 0; }
    strncat(tmp, "/", PATH_MAX - 1);
  }
  strncat(tmp, p, PATH_MAX - 1);
  char *o = out; *o = 0; const char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    const char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 0) break;
    if (n == 1 && s[0] == '.') { }
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/'); *o = 0; }
    else { if ((size_t)(o - out) + n + 2 < PATH_MAX) { *o++ = '/'; memcpy(o, s, n); o += n; *o = 0; } }
    s = e;
  }
  if (o == out) { out[0] = '/'; out[1] = 0; }
}
static int under(const char *n) { return rootlen && strncmp(n, root, rootlen) == 0 && (n[rootlen] == '/' || n[rootlen] == 0); }
static int pathid(const char *n) {
  const char *rel = under(n) ? n + rootlen + (n[rootlen] == '/') : n;
  for (int i = 0; i < npaths; i++) if (!strncmp(paths[i], rel, 255)) return i;
  if (npaths >= NPATH) return NPATH - 1;
  strncpy(paths[npaths], rel, 255); return npaths++;
}
static jent *jadd(int kind, int path, int fd, long req) {
  jtotal++;
  if (nj >= NJ) return &J[NJ - 1];
  jent *j = &J[nj++]; j->kind = kind; j->path = path; j->fd = fd; j->req = req; j->res = 0; j->err = 0; j->inj = 0; return j;
}
static void gate(int kind, int path) {
  REAL(ssize_t, read, int, void *, size_t);
  REAL(ssize_t, write, int, const void *, size_t);
  if (gate_req < 0 || (gate_sub[0] && !strstr(paths[path], gate_sub))) return;
  char m[64]; int e = errno; memset(m, 0, sizeof m); memcpy(m, &kind, 4); strncpy(m + 4, paths[path], 59);
  if (real_write(gate_req, m, 64) != 64) _exit(96);
  char c; ssize_t n;
  while ((n = real_read(gate_ok, &c, 1)) < 0 && errno == EINTR) { }
  if (n != 1) _exit(96);
  errno = e;
}
static pent *hit(int kind, int path) {
  opcount++;
  gate(kind, path);
  if (budget >= 0 && opcount > budget) _exit(97);
  pent *h = 0;
  for (int i = 0; i < np_; i++) {
    pent *p = &Pl[i];
    if (!(p->mask & kind)) continue;
    if (p->sub[0] == '=' ? strcmp(paths[path], p->sub + 1) != 0 : p->sub[0] && !strstr(paths[path], p->sub)) continue;
    p->seen++;
    if (p->seen < p->nth) continue;
    if (p->times >= 0 && p->fired >= p->times) continue;
    if (!h) { p->fired++; h = p; }
  }
  return h;
}
static int tracked(int fd) { return on && fd >= 0 && fd < NFD && fdpath[fd]; }
static void crash(void) { _exit(137); }

/* pre-action: returns 1 if the call must return -1/errno now */
static int pre(pent *h, jent *j) {
  if (!h) return 0;
  j->inj = h->action;
  switch (h->action) {
  case A_ERR: j->err = (int)h->arg; j->res = -1; errno = (int)h->arg; return 1;
  case A_EINTR: j->err = EINTR; j->res = -1; errno = EINTR; return 1;
  case A_SIGINT: raise(SIGINT);
    if (j->kind & (K_RENAME | K_UNLINK | K_MKDIR | K_LINK | K_TRUNC)) return 0;     /* these are not interruptible */
    j->err = EINTR; j->res = -1; errno = EINTR; return 1;
  case A_CRASH_BEFORE: crash(); return 1;
  case A_CALLBACK: if (cb) cb(h->arg); return 0;
  }
  return 0;
}
static void post(pent *h) { if (h && h->action == A_CRASH_AFTER) crash(); }

/* ---- open ------------------------------------------------------------------------------ */
static int do_open(int which, int dirfd, const char *p, int flags, mode_t mode) {
  REAL(int, openat64, int, const char *, int, ...);
  (void)which;
  if (!on) return real_openat64(dirfd, p, flags, mode);
  char n[PATH_MAX]; lexnorm(dirfd, p, n);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!under(n)) {
    if (wr && strncmp(n, "/dev/null", 9) && strncmp(n, "/proc/self/fd", 13)) {
      jent *j = jadd(K_ESCAPE, pathid(n), -1, flags); j->res = -1; j->err = EACCES; errno = EACCES; return -1;
    }
    return real_openat64(dirfd, p, flags, mode);
  }
  int kind = wr ? K_OPENW : K_OPENR, id = pathid(n);
  pent *h = hit(kind, id); jent *j = jadd(kind, id, -1, flags);
  if (pre(h, j)) return -1;
  if (wr && capacity >= 0 && (flags & O_CREAT) && written >= capacity && access(n, F_OK)) { j->inj = 99; j->res = -1; j->err = ENOSPC; errno = ENOSPC; return -1; }
  int r = real_openat64(dirfd, p, flags, mode);
  j->res = r; j->fd = r; j->err = r < 0 ? errno : 0;
  if (r >= 0 && r < NFD) { fdpath[r] = id + 1; fdflags[r] = wr; }
  post(h);
  return r;
}
#define MODE(flags) mode_t m = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(0, AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(0, AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(0, d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(0, d, p, flags | O_LARGEFILE, m); }
int __open64_2(const char *p, int flags) { return do_open(0, AT_FDCWD, p, flags | O_LARGEFILE, 0); }
int __open_2(const char *p, int flags) { return do_open(0, AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(0, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(0, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* ---- close ----------------------------------------------------------------------------- */
int close(int fd) {
  REAL(int, close, int);
  if (fd < 0 || fd >= NFD || !fdpath[fd]) return real_close(fd);
  int id = fdpath[fd] - 1, kind = fdflags[fd] ? K_CLOSEW : K_CLOSER;
  fdpath[fd] = 0;
  if (!on) return real_close(fd);
  pent *h = hit(kind, id); jent *j = jadd(kind, id, fd, 0);
  if (h) {
    j->inj = h->action;
    if (h->action == A_CRASH_BEFORE) crash();
    if (h->action == A_SIGINT) raise(SIGINT);
    if (h->action == A_ERR) { real_close(fd); j->res = -1; j->err = (int)h->arg; errno = (int)h->arg; return -1; }
    if (h->action == A_CALLBACK && cb) cb(h->arg);
  }
  int r = real_close(fd); j->res = r; post(h); return r;
}

/* ---- read/write ------------------------------------------------------------------------ */
static long shorten(pent *h, long n) {
  if (!h || h->action != A_SHORT) return n;
  long k = h->arg; if (k < 1) k = 1; if (k > n) k = n; return k;
}

static ssize_t rd(int fd, size_t n, void *b, off64_t off, int positioned) {
  REAL(ssize_t, read, int, void *, size_t);
  REAL(ssize_t, pread64, int, void *, size_t, off64_t);
  if (!tracked(fd)) return positioned ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
  int id = fdpath[fd] - 1; pent *h = hit(K_READ, id); jent *j = jadd(K_READ, id, fd, (long)n);
  if (pre(h, j)) return -1;
  size_t k = (size_t)shorten(h, (long)n);
  ssize_t r = positioned ? real_pread64(fd, b, k, off) : real_read(fd, b, k);
  j->res = r; j->err = r < 0 ? errno : 0; post(h); return r;
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, n, b, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, n, b, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return rd(fd, n, b, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, readv, int, const struct iovec *, int);
  if (!tracked(fd) || c < 1) return real_readv(fd, v, c);
  return rd(fd, v[0].iov_len, v[0].iov_base, 0, 0);
}

static ssize_t wr(int fd, const void *b, size_t n, off64_t off, int positioned) {
  REAL(ssize_t, write, int, const void *, size_t);
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  if (!tracked(fd)) return positioned ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
  int id = fdpath[fd] - 1; pent *h = hit(K_WRITE, id); jent *j = jadd(K_WRITE, id, fd, (long)n);
  if (pre(h, j)) return -1;
  size_t k = (size_t)shorten(h, (long)n);
  if (h && (h->action == A_CRASH_TORN || h->action == A_ERR_AFTER_PART)) {
    k = (size_t)h->arg % (n ? n : 1);
    if (k) { if (positioned) real_pwrite64(fd, b, k, off); else real_write(fd, b, k); }
    if (h->action == A_CRASH_TORN) crash();
    j->res = -1; j->err = EIO; errno = EIO; return -1;
  }
  long grow = 0;
  if (capacity >= 0) {   /* full disk: only bytes that extend a file need room */
    struct stat st;
    off64_t at = positioned ? off : lseek(fd, 0, SEEK_CUR);
    long size = fstat(fd, &st) == 0 ? (long)st.st_size : 0;
    if (!positioned && (fcntl(fd, F_GETFL) & O_APPEND)) at = size;
    grow = (long)at + (long)k > size ? (long)at + (long)k - size : 0;
    long room = capacity - written;
    if (grow > room) {
      long fit = (long)k - (grow - (room > 0 ? room : 0));
      j->inj = 99;
      if (fit <= 0) { j->res = -1; j->err = ENOSPC; errno = ENOSPC; return -1; }
      grow -= (long)k - fit; k = (size_t)fit;
    }
  }
  ssize_t r = positioned ? real_pwrite64(fd, b, k, off) : real_write(fd, b, k);
  if (r > 0) written += grow;
  j->res = r; j->err = r < 0 ? errno : 0; post(h); return r;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!tracked(fd) || c < 1) return real_writev(fd, v, c);
  return wr(fd, v[0].iov_base, v[0].iov_len, 0, 0);
}
/* in-kernel copies: force the library fallback to read/write so that faults apply */
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
  if (tracked(o) || tracked(i)) { errno = EINVAL; return -1; }
  return real_sendfile64(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (tracked(o) || tracked(i)) { errno = EXDEV; return -1; }
  return real_copy_file_range(i, a, o, b, n, f);
}

/* ---- sync/truncate --------------------------------------------------------------------- */
#define FDOP(NAME, KIND, DECL, CALL, REQ) \
  if (!tracked(fd)) return CALL; \
  int id = fdpath[fd] - 1; pent *h = hit(KIND, id); jent *j = jadd(KIND, id, fd, REQ); \
  if (pre(h, j)) return -1; \
  int r = CALL; j->res = r; j->err = r < 0 ? errno : 0; post(h); return r;
int fsync(int fd) { REAL(int, fsync, int); FDOP(fsync, K_SYNC, , real_fsync(fd), 0) }
int fdatasync(int fd) { REAL(int, fdatasync, int); FDOP(fdatasync, K_SYNC, , real_fdatasync(fd), 0) }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); FDOP(ftruncate64, K_TRUNC, , real_ftruncate64(fd, n), (long)n) }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate64, int, off64_t); FDOP(ftruncate64, K_TRUNC, , real_ftruncate64(fd, n), (long)n) }

/* ---- directory operations -------------------------------------------------------------- */
static int path_op(int kind, int dirfd, const char *p, int *idp, pent **hp, jent **jp) {
  char n[PATH_MAX]; lexnorm(dirfd, p, n);
  if (!under(n)) { jent *j = jadd(K_ESCAPE, pathid(n), -1, kind); j->res = -1; j->err = EACCES; errno = EACCES; return -1; }
  *idp = pathid(n); *hp = hit(kind, *idp); *jp = jadd(kind, *idp, -1, 0);
  return pre(*hp, *jp) ? -1 : 0;
}
#define PATHOP(KIND, DFD, P, CALL) \
  if (!on) return CALL; \
  int id; pent *h; jent *j; if (path_op(KIND, DFD, P, &id, &h, &j)) return -1; \
  int r = CALL; j->res = r; j->err = r < 0 ? errno : 0; post(h); return r;
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); PATHOP(K_UNLINK, d, p, real_unlinkat(d, p, f)) }
int unlink(const char *p) { REAL(int, unlink, const char *); PATHOP(K_UNLINK, AT_FDCWD, p, real_unlink(p)) }
int rmdir(const char *p) { REAL(int, rmdir, const char *); PATHOP(K_UNLINK, AT_FDCWD, p, real_rmdir(p)) }
int remove(const char *p) { REAL(int, remove, const char *); PATHOP(K_UNLINK, AT_FDCWD, p, real_remove(p)) }
int truncate64(const char *p, off64_t n) { REAL(int, truncate64, const char *, off64_t); PATHOP(K_TRUNC, AT_FDCWD, p, real_truncate64(p, n)) }
int truncate(const char *p, off_t n) { REAL(int, truncate64, const char *, off64_t); PATHOP(K_TRUNC, AT_FDCWD, p, real_truncate64(p, n)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); PATHOP(K_MKDIR, d, p, real_mkdirat(d, p, m)) }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); PATHOP(K_MKDIR, AT_FDCWD, p, real_mkdir(p, m)) }
static int two(int kind, int d1, const char *a, int d2, const char *b, int which) {
  REAL(int, renameat, int, const char *, int, const char *);
  REAL(int, linkat, int, const char *, int, const char *, int);
  if (!on) return which ? real_linkat(d1, a, d2, b, 0) : real_renameat(d1, a, d2, b);
  char n[PATH_MAX]; lexnorm(d1, a, n);
  if (!under(n)) { jent *j = jadd(K_ESCAPE, pathid(n), -1, kind); j->res = -1; j->err = EACCES; errno = EACCES; return -1; }
  int id; pent *h; jent *j; if (path_op(kind, d2, b, &id, &h, &j)) return -1;
  int r = which ? real_linkat(d1, a, d2, b, 0) : real_renameat(d1, a, d2, b);
  j->res = r; j->err = r < 0 ? errno : 0; j->req = pathid(n); post(h); return r;
}
int rename(const char *a, const char *b) { return two(K_RENAME, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two(K_RENAME, d1, a, d2, b, 0); }
int link(const char *a, const char *b) { return two(K_LINK, AT_FDCWD, a, AT_FDCWD, b, 1); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { (void)f; return two(K_LINK, d1, a, d2, b, 1); }

/* ---- clock ----------------------------------------------------------------------------- */
static int64_t tick(void) {
  clk_reads++;
  for (int i = 0; i < njump; i++) if (jump_at[i] == clk_reads) clk_real += jump_by[i];
  clk_real += clk_step; clk_mono += clk_step;
  return clk_real;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  if (!clock_on || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return real_clock_gettime(c, t);
  int64_t r = tick();
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? r : clk_mono;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  REAL(int, gettimeofday, struct timeval *, void *);
  if (!clock_on) return real_gettimeofday(t, z);
  int64_t r = tick(); t->tv_sec = r / 1000000000; t->tv_usec = (r % 1000000000) / 1000; return 0;
}
time_t time(time_t *t) {
  REAL(time_t, time, time_t *);
  if (!clock_on) return real_time(t);
  time_t v = (time_t)(tick() / 1000000000); if (t) *t = v; return v;
}
