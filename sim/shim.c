/* The simulator's seam: interposes on the libc calls through which the code under test reaches files, directories,
 * the clock and randomness.  Calls on paths outside the simulated root are passed through unchanged.
 * Built twice: as an LD_PRELOAD library for the real command-line programs and as an object linked into the harness. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "shim.h"

static struct vsim_ctl *C;
#define MAXFD 1024
static uint32_t fdtab[MAXFD];          /* path hash of a tracked descriptor, 0 if not tracked */
#define ON (C && C->active)

static int busy;
void vsim_attach(struct vsim_ctl *c) { C = c; busy = 0; memset(fdtab, 0, sizeof fdtab); }

/* Several simulated processes at once: before each of its events a process hands the turn back and waits for the next. */
static int sched_yield_fd = -1, sched_turn_fd = -1;
static unsigned char sched_me;

void vsim_attach_env(void) {
  const char *s = getenv("VSIM_FD");
  if (!s) return;
  void *p = mmap(NULL, sizeof(struct vsim_ctl), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(s), 0);
  if (p == MAP_FAILED) return;
  if (((struct vsim_ctl *)p)->magic == VSIM_MAGIC) C = p;
  int y, t, m;
  if ((s = getenv("VSIM_SCHED")) && sscanf(s, "%d,%d,%d", &y, &t, &m) == 3) { sched_yield_fd = y; sched_turn_fd = t; sched_me = m; }
}
#ifdef VSIM_PRELOAD
__attribute__((constructor)) static void vsim_init(void) {
  vsim_attach_env();
  if (C && C->nofile) { struct rlimit l = { C->nofile, C->nofile }; setrlimit(RLIMIT_NOFILE, &l); }
}
#endif
static void gate(void) {
  if (sched_yield_fd < 0) return;
  int e = errno;
  unsigned char b = sched_me;
  long r;
  while ((r = syscall(SYS_write, sched_yield_fd, &b, 1)) < 0 && errno == EINTR);
  if (r == 1) while ((r = syscall(SYS_read, sched_turn_fd, &b, 1)) < 0 && errno == EINTR);
  if (r != 1) syscall(SYS_exit_group, 97);   /* the simulator is gone */
  errno = e;
}

/* One event at a time, should the program have threads. */
static void enter(void) { while (__atomic_exchange_n(&busy, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void leave(void) { __atomic_store_n(&busy, 0, __ATOMIC_RELEASE); }

static uint64_t rnd(void) {
  uint64_t z = (C->rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint32_t fnv(const char *s) {
  uint32_t h = 2166136261u;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 16777619u;
  return h ? h : 1;
}
static void hmix(uint64_t v) { C->hash = (C->hash ^ v) * 0x100000001b3ull; C->hash ^= C->hash >> 29; }

/* Path relative to the simulated root, or NULL if outside of it. */
static const char *relpath(int dirfd, const char *path, char *buf, size_t n) {
  if (!ON || !path) return NULL;
  char raw[2048];
  if (path[0] == '/') {
    if (strlen(path) >= sizeof raw) return NULL;
    strcpy(raw, path);
  } else {
    if (dirfd != AT_FDCWD) return NULL;
    char cwd[1024];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL;
    if (strlen(cwd) + strlen(path) + 2 >= sizeof raw) return NULL;
    strcpy(raw, cwd); strcat(raw, "/"); strcat(raw, path);
  }
  /* lexical normalisation */
  char out[2048]; size_t o = 0; char *save = NULL;
  for (char *t = strtok_r(raw, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { while (o && out[o - 1] != '/') o--; if (o) o--; continue; }
    out[o++] = '/'; size_t l = strlen(t); memcpy(out + o, t, l); o += l;
  }
  out[o] = 0;
  size_t rl = strlen(C->root), tl = strlen(C->tmp);
  if (rl && !strncmp(out, C->root, rl) && (!out[rl] || out[rl] == '/')) {
    const char *r = out[rl] ? out + rl + 1 : ".";
    if (strlen(r) >= n) return NULL;
    strcpy(buf, r);
    return buf;
  }
  if (tl && !strncmp(out, C->tmp, tl) && (!out[tl] || out[tl] == '/') && strlen(out + tl) + 5 < n) {
    strcpy(buf, "~tmp"); strcat(buf, out + tl);
    return buf;
  }
  return NULL;
}
/* Names on different file systems, if the plan has the temporary files on one of their own. */
static int crosses(const char *a, const char *b) {
  return C->xdev && a && b && (strncmp(a, "~tmp", 4) == 0) != (strncmp(b, "~tmp", 4) == 0);
}

static void die(void) {
  C->crashed = 1; C->counters[CT_CRASH]++;
  if (C->lib_mode) { C->dead = 1; return; }
  syscall(SYS_kill, (pid_t)syscall(SYS_getpid), SIGKILL);
  for (;;) syscall(SYS_pause);
}

static void joinroot(char *o, size_t n, const char *p) { snprintf(o, n, "%s/%s", C->root, p); }

struct dstate;
static void dir_note_new(const char *rel);

/* Starts an event.  Returns the fault to apply to it (NULL if none); *no is its number. */
static struct vsim_fault *ev_begin(int op, uint32_t ph, uint64_t req, uint32_t *no) {
  static struct vsim_fault *hit;
  enter();
  hit = NULL;
  gate();
  *no = C->nev++;
  C->sim_ns += 1000 + (uint64_t)C->clock_step_ns;
  if (*no < VSIM_LOG) {
    struct vsim_ev *e = &C->log[*no];
    e->op = op; e->flags = 0; e->err = 0; e->ph = ph; e->req = (uint32_t)req; e->got = 0;
  }
  for (uint32_t i = 0; i < C->nfaults && i < VSIM_MAX_FAULTS; i++) {
    struct vsim_fault *f = &C->faults[i];
    if (f->ev != *no) {
      /* a lasting error: the next `pad & 0xffff` operations of the same kind fail as well */
      if (f->kind == FK_ERR && f->ev < *no && f->pad >> 16 == (uint32_t)op && f->pad & 0xffff) { f->pad--; hit = f; }
      continue;
    }
    if (f->kind == FK_ERR) f->pad = (uint32_t)op << 16 | (f->pad & 0xffff);
    char a[512], b[512];
    if (f->kind == FK_EXT_UNLINK) {
      joinroot(a, sizeof a, f->p1);
      if (syscall(SYS_unlinkat, AT_FDCWD, a, 0) == 0) C->counters[CT_EXT]++;
      if (*no < VSIM_LOG) C->log[*no].flags |= 8;
    } else if (f->kind == FK_EXT_RENAME) {
      joinroot(a, sizeof a, f->p1); joinroot(b, sizeof b, f->p2);
      if (syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0) == 0) { C->counters[CT_EXT]++; dir_note_new(f->p2); }
      if (*no < VSIM_LOG) C->log[*no].flags |= 8;
    } else hit = f;
  }
  if (hit && *no < VSIM_LOG) C->log[*no].flags |= 1;
  return hit;
}
static long ev_end(uint32_t no, int op, uint32_t ph, long r, int err) {
  if (no < VSIM_LOG) { C->log[no].err = r < 0 ? err : 0; C->log[no].got = r < 0 ? 0 : (uint32_t)r; }
  hmix((uint64_t)op << 56 ^ (uint64_t)ph << 24 ^ (uint64_t)(r < 0 ? 0x800000 | err : (r & 0x7fffff)));
  leave();
  if (r < 0) errno = err;
  return r;
}
#define DEADCHK(rv) do { if (C->dead) { errno = EIO; return rv; } } while (0)

/* Generic wrapper for all-or-nothing operations. */
#define SIMPLE(op, ph, call) SIMPLE_R(op, ph, 0, call)
#define SIMPLE_R(op, ph, req, call) do {                                                      \
    uint32_t no_; DEADCHK(-1);                                                                \
    struct vsim_fault *f_ = ev_begin(op, ph, req, &no_);                                      \
    if (f_ && f_->kind == FK_ERR) { C->counters[CT_ERR]++; return ev_end(no_, op, ph, -1, f_->arg); } \
    if (f_ && (f_->kind == FK_CRASH_BEFORE || f_->kind == FK_CRASH_PARTIAL)) { die(); return ev_end(no_, op, ph, -1, EIO); } \
    long r_ = (call); int e_ = errno;                                                         \
    if (f_ && f_->kind == FK_CRASH_AFTER) { die(); return ev_end(no_, op, ph, -1, EIO); }     \
    return ev_end(no_, op, ph, r_, e_);                                                       \
  } while (0)

static int path_err(int op, const char *rel) {
  for (uint32_t i = 0; i < C->npfaults && i < VSIM_MAX_PFAULTS; i++)
    if (C->pfaults[i].op == (uint32_t)op && !strcmp(C->pfaults[i].path, rel)) return C->pfaults[i].err;
  return 0;
}

/* ---- open / close ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char rb[VSIM_PATH * 4];
  const char *rel = relpath(dirfd, path, rb, sizeof rb);
  if (!rel || (flags & O_DIRECTORY) || (flags & O_PATH)) return syscall(SYS_openat, dirfd, path, flags, mode);
  DEADCHK(-1);
  uint32_t ph = fnv(rel), no;
  int op = (flags & (O_CREAT | O_TRUNC)) ? OP_CREATE : OP_OPEN;
  struct vsim_fault *f = ev_begin(op, ph, 0, &no);
  if (f && f->kind == FK_ERR) { C->counters[CT_ERR]++; return ev_end(no, op, ph, -1, f->arg); }
  if (f && f->kind == FK_EINTR) { C->counters[CT_EINTR]++; return ev_end(no, op, ph, -1, EINTR); }
  if (f && (f->kind == FK_CRASH_BEFORE || f->kind == FK_CRASH_PARTIAL)) { die(); return ev_end(no, op, ph, -1, EIO); }
  int pe = path_err(op, rel);
  if (pe) { C->counters[CT_PATHERR]++; return ev_end(no, op, ph, -1, pe); }
  int fresh = (flags & O_CREAT) && syscall(SYS_faccessat, dirfd, path, F_OK) != 0;
  int fd = syscall(SYS_openat, dirfd, path, flags, mode), e = errno;
  if (fd >= 0 && fresh) dir_note_new(rel);
  if (f && f->kind == FK_CRASH_AFTER) { if (fd >= 0) syscall(SYS_close, fd); die(); return ev_end(no, op, ph, -1, EIO); }
  if (fd >= 0 && fd < MAXFD) fdtab[fd] = ph;
  ev_end(no, op, ph, fd < 0 ? -1 : 0, e);
  return fd;
}
#define MODEARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  if (fd < 0 || fd >= MAXFD) return syscall(SYS_close, fd);
  uint32_t ph = fdtab[fd], no;
  fdtab[fd] = 0;
  if (!ON || !ph || C->dead) return syscall(SYS_close, fd);
  struct vsim_fault *f = ev_begin(OP_CLOSE, ph, 0, &no);
  long r = syscall(SYS_close, fd);
  if (f && (f->kind == FK_CRASH_BEFORE || f->kind == FK_CRASH_PARTIAL || f->kind == FK_CRASH_AFTER)) die();
  return ev_end(no, OP_CLOSE, ph, r, errno);
}

/* ---- data transfer ---- */
#define TRACKED(fd) (ON && (fd) >= 0 && (fd) < MAXFD && fdtab[fd])

/* off < 0: at the file position */
static ssize_t xfer(int wr, int fd, void *buf, size_t n, off_t off) {
  DEADCHK(-1);
  uint32_t ph = fdtab[fd], no;
  int op = wr ? OP_WRITE : OP_READ;
  struct vsim_fault *f = ev_begin(op, ph, n, &no);
  if (f && f->kind == FK_ERR) { C->counters[CT_ERR]++; return ev_end(no, op, ph, -1, f->arg); }
  if (f && f->kind == FK_EINTR) { C->counters[CT_EINTR]++; return ev_end(no, op, ph, -1, EINTR); }
  if (f && f->kind == FK_CRASH_BEFORE) { die(); return ev_end(no, op, ph, -1, EIO); }
  C->nxfer++;
  if (C->eintr_period >= 2 && C->nxfer % C->eintr_period == 0) { C->counters[CT_PEINTR]++; return ev_end(no, op, ph, -1, EINTR); }
  size_t m = n;
  uint32_t lim = wr ? C->wmax : C->rmax;
  if (lim && m > 0) {
    size_t l = lim;
    if (C->rnd_split) l = 1 + rnd() % lim;
    if (m > l) { m = l; C->counters[wr ? CT_WSPLIT : CT_RSPLIT]++; }
  }
  if (f && f->kind == FK_SHORT && m > 1) {
    size_t l = f->arg < 1 ? 1 : (size_t)f->arg;
    if (m > l) { m = l; C->counters[CT_SHORT]++; }
  }
  if (f && f->kind == FK_CRASH_PARTIAL && wr) { size_t l = f->arg < 0 ? 0 : (size_t)f->arg; if (m > l) m = l; }
  if (wr && m > 0 && C->disk_cap != UINT64_MAX) {
    uint64_t left = C->disk_cap > C->bytes_written ? C->disk_cap - C->bytes_written : 0;
    if (left == 0) { C->counters[CT_ENOSPC_CAP]++; return ev_end(no, op, ph, -1, ENOSPC); }
    if (m > left) { m = left; C->counters[CT_WSPLIT]++; }
  }
  long r = 0;
  if (!(wr && m == 0 && n > 0))
    r = wr ? (off < 0 ? syscall(SYS_write, fd, buf, m) : syscall(SYS_pwrite64, fd, buf, m, off))
           : (off < 0 ? syscall(SYS_read, fd, buf, m) : syscall(SYS_pread64, fd, buf, m, off));
  int e = errno;
  if (r > 0) { if (wr) C->bytes_written += r; else C->bytes_read += r; }
  if (f && (f->kind == FK_CRASH_PARTIAL || f->kind == FK_CRASH_AFTER)) { die(); return ev_end(no, op, ph, -1, EIO); }
  return ev_end(no, op, ph, r, e);
}
ssize_t read(int fd, void *b, size_t n) { return TRACKED(fd) ? xfer(0, fd, b, n, -1) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return TRACKED(fd) ? xfer(1, fd, (void *)b, n, -1) : syscall(SYS_write, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return TRACKED(fd) ? xfer(0, fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return TRACKED(fd) ? xfer(1, fd, (void *)b, n, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static ssize_t vec(int wr, int fd, const struct iovec *v, int c, off_t off) {
  /* a vectored transfer is served by its first non-empty element: a legal short transfer */
  for (int i = 0; i < c; i++) if (v[i].iov_len) return xfer(wr, fd, v[i].iov_base, v[i].iov_len, off);
  return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) { return TRACKED(fd) ? vec(0, fd, v, c, -1) : syscall(SYS_readv, fd, v, c); }
ssize_t writev(int fd, const struct iovec *v, int c) { return TRACKED(fd) ? vec(1, fd, v, c, -1) : syscall(SYS_writev, fd, v, c); }
ssize_t preadv64(int fd, const struct iovec *v, int c, off64_t o) { return TRACKED(fd) ? vec(0, fd, v, c, o) : syscall(SYS_preadv, fd, v, c, (long)o, 0L); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return TRACKED(fd) ? vec(1, fd, v, c, o) : syscall(SYS_pwritev, fd, v, c, (long)o, 0L); }
ssize_t preadv(int fd, const struct iovec *v, int c, off_t o) { return preadv64(fd, v, c, o); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return pwritev64(fd, v, c, o); }
/* in-kernel copies would bypass the simulated transfers: report them as unsupported on simulated files */
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  if (TRACKED(i) || TRACKED(o)) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (TRACKED(i) || TRACKED(o)) { errno = ENOSYS; return -1; }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t splice(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  if (TRACKED(i) || TRACKED(o)) { errno = EINVAL; return -1; }
  return syscall(SYS_splice, i, io, o, oo, n, fl);
}

int fsync(int fd) { if (!TRACKED(fd)) return syscall(SYS_fsync, fd); SIMPLE(OP_FSYNC, fdtab[fd], 0L); }
int fdatasync(int fd) { if (!TRACKED(fd)) return syscall(SYS_fdatasync, fd); SIMPLE(OP_FSYNC, fdtab[fd], 0L); }
int ftruncate64(int fd, off64_t n) { if (!TRACKED(fd)) return syscall(SYS_ftruncate, fd, n); SIMPLE(OP_TRUNC, fdtab[fd], syscall(SYS_ftruncate, fd, n)); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) { char rb[VSIM_PATH * 4]; const char *r = relpath(AT_FDCWD, p, rb, sizeof rb); if (!r) return syscall(SYS_truncate, p, n); SIMPLE(OP_TRUNC, fnv(r), syscall(SYS_truncate, p, n)); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }

/* ---- names ---- */
static int sim_rename(int d1, const char *a, int d2, const char *b, unsigned fl, const char *ra, const char *rb) {
  SIMPLE_R(OP_RENAME, fnv(rb), fnv(ra), crosses(ra, rb) ? (errno = EXDEV, -1L) : syscall(SYS_renameat2, d1, a, d2, b, fl));
}
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char ra[VSIM_PATH * 4], rb[VSIM_PATH * 4];
  const char *x = relpath(d1, a, ra, sizeof ra), *y = relpath(d2, b, rb, sizeof rb);
  if (!x && !y) return syscall(SYS_renameat2, d1, a, d2, b, fl);
  int r = sim_rename(d1, a, d2, b, fl, x ? x : y, y ? y : x), e = errno;
  if (r == 0 && y) dir_note_new(y);
  errno = e;
  return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }
int unlink(const char *p) { char rb[VSIM_PATH * 4]; const char *r = relpath(AT_FDCWD, p, rb, sizeof rb); if (!r) return syscall(SYS_unlinkat, AT_FDCWD, p, 0); SIMPLE(OP_UNLINK, fnv(r), syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, const char *p, int fl) { char rb[VSIM_PATH * 4]; const char *r = relpath(d, p, rb, sizeof rb); if (!r) return syscall(SYS_unlinkat, d, p, fl); SIMPLE(OP_UNLINK, fnv(r), syscall(SYS_unlinkat, d, p, fl)); }
int mkdir(const char *p, mode_t m) { char rb[VSIM_PATH * 4]; const char *r = relpath(AT_FDCWD, p, rb, sizeof rb); if (!r) return syscall(SYS_mkdirat, AT_FDCWD, p, m); SIMPLE(OP_MKDIR, fnv(r), syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int rmdir(const char *p) { char rb[VSIM_PATH * 4]; const char *r = relpath(AT_FDCWD, p, rb, sizeof rb); if (!r) return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); SIMPLE(OP_RMDIR, fnv(r), syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int link(const char *a, const char *b) {
  char ra[VSIM_PATH * 4], rb[VSIM_PATH * 4]; const char *x = relpath(AT_FDCWD, a, ra, sizeof ra), *r = relpath(AT_FDCWD, b, rb, sizeof rb);
  if (!r) return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
  SIMPLE(OP_LINK, fnv(r), crosses(x, r) ? (errno = EXDEV, -1L) : syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0));
}

/* ---- looking at files: not an event, but another process may get its turn before it; by name it may be refused ---- */
static int look(int dirfd, const char *path, int fd) {
  if (!ON || C->dead || (sched_yield_fd < 0 && !C->npfaults)) return 0;
  char rb[VSIM_PATH * 4];
  const char *rel = path && *path ? relpath(dirfd, path, rb, sizeof rb) : NULL;
  if (sched_yield_fd >= 0 && (path && *path ? rel != NULL : TRACKED(fd))) { enter(); gate(); leave(); }
  int e = rel ? path_err(OP_STAT, rel) : 0;
  if (e) { C->counters[CT_STATERR]++; hmix((uint64_t)OP_STAT << 56 ^ (uint64_t)fnv(rel) << 24 ^ (uint64_t)(0x800000 | e)); errno = e; }
  return e;
}
/* File times are the simulator's: what they are depends on the plan alone, never on when or in which order files were really
 * written (archives, copies and network disks keep times of their own).  Returns 0 for a file that is not simulated. */
static int sim_times(int dirfd, const char *path, int fd, int64_t t[4]) {
  if (!ON) return 0;
  char rb[VSIM_PATH * 4]; uint32_t ph;
  if (path && *path) { const char *r = relpath(dirfd, path, rb, sizeof rb); if (!r) return 0; ph = fnv(r); }
  else if (TRACKED(fd)) ph = fdtab[fd];
  else return 0;
  uint64_t z = C->seed;
  int64_t span = z % 4 == 0 ? 0 : z % 4 == 1 ? 2000000000ll : z % 4 == 2 ? 86400000000000ll : 600000000000000000ll;
  for (int i = 0; i < 4; i++) {
    uint64_t x = (z ^ ((uint64_t)ph << 2) ^ i) * 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 31)) * 0xbf58476d1ce4e5b9ull; x ^= x >> 29;
    t[i] = 1700000000000000000ll - (span ? (int64_t)(x % (uint64_t)span) : 0);
  }
  return 1;
}
static int redate(int r, int d, const char *p, int fd, struct stat64 *b) {
  int64_t t[4];
  if (r == 0 && sim_times(d, p, fd, t)) {
    b->st_mtim.tv_sec = t[0] / 1000000000; b->st_mtim.tv_nsec = t[0] % 1000000000;
    b->st_atim.tv_sec = t[1] / 1000000000; b->st_atim.tv_nsec = t[1] % 1000000000;
    b->st_ctim.tv_sec = t[2] / 1000000000; b->st_ctim.tv_nsec = t[2] % 1000000000;
  }
  return r;
}
int statx(int d, const char *p, int fl, unsigned mask, struct statx *b) {
  if (look(d, p, d)) return -1;
  int r = syscall(SYS_statx, d, p, fl, mask, b);
  int64_t t[4];
  if (r == 0 && sim_times(d, p, d, t)) {
    struct statx_timestamp *w[4] = { &b->stx_mtime, &b->stx_atime, &b->stx_ctime, &b->stx_btime };
    for (int i = 0; i < 4; i++) { w[i]->tv_sec = t[i] / 1000000000; w[i]->tv_nsec = t[i] % 1000000000; }
  }
  return r;
}
int stat64(const char *p, struct stat64 *b) { if (look(AT_FDCWD, p, -1)) return -1; return redate(syscall(SYS_newfstatat, AT_FDCWD, p, b, 0), AT_FDCWD, p, -1, b); }
int lstat64(const char *p, struct stat64 *b) { if (look(AT_FDCWD, p, -1)) return -1; return redate(syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW), AT_FDCWD, p, -1, b); }
int fstat64(int fd, struct stat64 *b) { if (look(AT_FDCWD, NULL, fd)) return -1; return redate(syscall(SYS_fstat, fd, b), AT_FDCWD, NULL, fd, b); }
int fstatat64(int d, const char *p, struct stat64 *b, int fl) { if (look(d, p, d)) return -1; return redate(syscall(SYS_newfstatat, d, p, b, fl), d, p, d, b); }
int stat(const char *p, struct stat *b) { return stat64(p, (struct stat64 *)b); }
int lstat(const char *p, struct stat *b) { return lstat64(p, (struct stat64 *)b); }
int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *)b); }
int fstatat(int d, const char *p, struct stat *b, int fl) { return fstatat64(d, p, (struct stat64 *)b, fl); }
int access(const char *p, int m) { if (look(AT_FDCWD, p, -1)) return -1; return syscall(SYS_faccessat, AT_FDCWD, p, m); }
off64_t lseek64(int fd, off64_t o, int w) { if (w == SEEK_END) look(AT_FDCWD, NULL, fd); return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

/* ---- directories ---- */
#ifdef VSIM_PRELOAD
extern void *__libc_malloc(size_t);
#define own_alloc __libc_malloc
#else
#define own_alloc malloc
#endif
#define MAXDIRS 16
#define MAXENT 4096
struct dstate { DIR *d; char rel[VSIM_PATH]; int n, pos; struct dirent64 *ent; };
static struct dstate dirs[MAXDIRS];
static DIR *(*real_opendir)(const char *);
static DIR *(*real_fdopendir)(int);
static struct dirent64 *(*real_readdir64)(DIR *);
static int (*real_closedir)(DIR *);
static void dinit(void) {
  if (real_opendir) return;
  real_opendir = dlsym(RTLD_NEXT, "opendir");
  real_fdopendir = dlsym(RTLD_NEXT, "fdopendir");
  real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  real_closedir = dlsym(RTLD_NEXT, "closedir");
}
static int ecmp(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static struct dstate *dfind(DIR *d) { for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d && dirs[i].d == d) return &dirs[i]; return NULL; }

static void dir_note_new(const char *rel) {
  char dir[VSIM_PATH * 4]; const char *base;
  const char *s = strrchr(rel, '/');
  if (s) { memcpy(dir, rel, s - rel); dir[s - rel] = 0; base = s + 1; } else { strcpy(dir, "."); base = rel; }
  for (int i = 0; i < MAXDIRS; i++) {
    struct dstate *q = &dirs[i];
    if (!q->d || strcmp(q->rel, dir) || q->n >= MAXENT) continue;
    int dup = 0;
    for (int k = q->pos; k < q->n; k++) if (!strcmp(q->ent[k].d_name, base)) dup = 1;
    if (dup || !C->live_new) continue;
    if (C->live_new == 2 && (rnd() & 1)) continue;     /* may or may not become visible: both are legal */
    int at = q->pos + (int)(rnd() % (uint64_t)(q->n - q->pos + 1));
    memmove(&q->ent[at + 1], &q->ent[at], sizeof(struct dirent64) * (q->n - at));
    memset(&q->ent[at], 0, sizeof q->ent[at]);
    q->ent[at].d_ino = 1; q->ent[at].d_type = DT_REG; q->ent[at].d_reclen = sizeof(struct dirent64);
    snprintf(q->ent[at].d_name, sizeof q->ent[at].d_name, "%s", base);
    q->n++;
    C->counters[CT_LIVE_NEW]++;
  }
}
static DIR *track_dir(DIR *d, const char *rel) {
  int i;
  for (i = 0; i < MAXDIRS && dirs[i].d; i++);
  if (i == MAXDIRS) return d;
  struct dstate *q = &dirs[i];
  q->d = d; q->n = q->pos = 0; snprintf(q->rel, sizeof q->rel, "%s", rel);
  q->ent = own_alloc(sizeof(struct dirent64) * (MAXENT + 1));
  struct dirent64 *e;
  while (q->n < MAXENT && (e = real_readdir64(d))) memcpy(&q->ent[q->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
  qsort(q->ent, q->n, sizeof *q->ent, ecmp);
  if (C->dir_perm) {
    for (int k = q->n - 1; k > 0; k--) {
      int j = rnd() % (k + 1);
      struct dirent64 t = q->ent[k]; q->ent[k] = q->ent[j]; q->ent[j] = t;
    }
    C->counters[CT_DIRPERM]++;
  }
  for (int k = 0; k < q->n; k++) q->ent[k].d_off = k + 1;
  return d;
}
DIR *opendir(const char *p) {
  dinit();
  char rb[VSIM_PATH * 4]; const char *r = relpath(AT_FDCWD, p, rb, sizeof rb);
  if (!r) return real_opendir(p);
  DEADCHK(NULL);
  uint32_t ph = fnv(r), no;
  struct vsim_fault *f = ev_begin(OP_OPENDIR, ph, 0, &no);
  if (f && f->kind == FK_ERR) { C->counters[CT_ERR]++; ev_end(no, OP_OPENDIR, ph, -1, f->arg); return NULL; }
  if (f && (f->kind == FK_CRASH_BEFORE || f->kind == FK_CRASH_PARTIAL || f->kind == FK_CRASH_AFTER)) { die(); ev_end(no, OP_OPENDIR, ph, -1, EIO); return NULL; }
  DIR *d = real_opendir(p); int e = errno;
  ev_end(no, OP_OPENDIR, ph, d ? 0 : -1, e);
  return d ? track_dir(d, r) : NULL;
}
struct dirent64 *readdir64(DIR *d) {
  dinit();
  struct dstate *q = ON ? dfind(d) : NULL;
  if (!q) return real_readdir64(d);
  DEADCHK(NULL);
  uint32_t ph = fnv(q->rel), no;
  struct vsim_fault *f = ev_begin(OP_READDIR, ph, 0, &no);
  if (f && f->kind == FK_ERR) { C->counters[CT_ERR]++; ev_end(no, OP_READDIR, ph, -1, f->arg); return NULL; }
  if (f && (f->kind == FK_CRASH_BEFORE || f->kind == FK_CRASH_PARTIAL || f->kind == FK_CRASH_AFTER)) { die(); ev_end(no, OP_READDIR, ph, -1, EIO); return NULL; }
  if (q->pos >= q->n) { ev_end(no, OP_READDIR, ph, 0, 0); errno = 0; return NULL; }
  struct dirent64 *e = &q->ent[q->pos++];
  ev_end(no, OP_READDIR, fnv(e->d_name), 1, 0);
  return e;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  dinit();
  struct dstate *q = dfind(d);
  if (q) { free(q->ent); q->ent = NULL; q->d = NULL; }
  return real_closedir(d);
}

/* ---- clock and randomness ---- */
static int64_t sim_now(void) { C->counters[CT_CLOCK]++; C->sim_ns += (uint64_t)C->clock_step_ns; return C->clock_base_ns + (int64_t)C->sim_ns; }
#ifdef VSIM_PRELOAD
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!ON || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_BOOTTIME)) return syscall(SYS_clock_gettime, id, ts);
  int64_t t = sim_now(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!ON) return syscall(SYS_gettimeofday, tv, tz);
  int64_t t = sim_now(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0;
}
time_t time(time_t *o) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!ON) return syscall(SYS_getrandom, b, n, fl);
  C->counters[CT_RANDOM]++;
  /* its own stream: the schedule must not depend on how much randomness the program asks for */
  static uint64_t st; if (!st) st = C->seed ^ 0x5bd1e995u;
  for (size_t i = 0; i < n; i++) { st = st * 6364136223846793005ull + 1442695040888963407ull; ((unsigned char *)b)[i] = st >> 56; }
  return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }

/* ---- memory: large allocations are counted, and one of them may fail ---- */
extern void *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int oom(size_t n) {
  if (!ON || n < 400) return 0;
  uint32_t k = __atomic_add_fetch(&C->nalloc, 1, __ATOMIC_RELAXED);
  if (!C->oom_at || k != C->oom_at) return 0;
  C->counters[CT_OOM]++;
  errno = ENOMEM;
  return 1;
}
/* the largest request that the machine itself could not serve */
static void *got(void *p, size_t n) { if (!p && n && ON && n > C->refused) C->refused = n; return p; }
void *malloc(size_t n) { return oom(n) ? NULL : got(__libc_malloc(n), n); }
void *calloc(size_t a, size_t b) {
  size_t n = b && a > SIZE_MAX / b ? SIZE_MAX : a * b;
  return oom(n) ? NULL : got(__libc_calloc(a, b), n);
}
void *realloc(void *p, size_t n) { return oom(n) ? NULL : got(__libc_realloc(p, n), n); }
int posix_memalign(void **o, size_t al, size_t n) {
  if (oom(n)) return ENOMEM;
  void *p = got(__libc_memalign(al, n), n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void *aligned_alloc(size_t al, size_t n) { return oom(n) ? NULL : __libc_memalign(al, n); }

/* ---- the machine and the process: number of processors and process number are part of the plan ---- */
pid_t getpid(void) { return ON && C->pid ? (pid_t)(C->pid + sched_me * 10000u) : (pid_t)syscall(SYS_getpid); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (!ON || !C->cpus || n < 8) { long r = syscall(SYS_sched_getaffinity, p, n, m); if (r < 0) return -1; if ((size_t)r < n) memset((char *)m + r, 0, n - r); return 0; }
  memset(m, 0, n);
  for (uint32_t i = 0; i < C->cpus && i < n * 8; i++) ((unsigned char *)m)[i / 8] |= 1 << i % 8;
  return 0;
}
long sysconf(int name) {
  static long (*real)(int);
  if (ON && C->cpus && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return C->cpus;
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}

/* ---- threads: who runs first is the plan's choice.
 * Each new thread is one of: left alone; run until it ends or blocks before its creator goes on; held back until every
 * thread that is not held back has ended or is blocked, and then started in the order of random ranks. */
#define MAXTHR 256
enum { TH_FREE = 0, TH_RUN, TH_HELD, TH_DONE };
struct thr { int tid, state; uint64_t rank; void *(*fn)(void *); void *arg; int hold; };
static struct thr thrs[MAXTHR];
static int nthr, thr_budget = 20000;      /* polls of 100 us in all: 2 s */
static uint64_t thr_rng;
static uint64_t thr_rnd(void) {
  uint64_t z = __atomic_add_fetch(&thr_rng, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED) ^ C->seed;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int thr_blocked(int tid) {
  char p[64], b[512];
  snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC);
  if (fd < 0) return 1;
  long n = syscall(SYS_read, fd, b, sizeof b - 1);
  syscall(SYS_close, fd);
  if (n <= 0) return 1;
  b[n] = 0;
  char *q = strrchr(b, ')');
  return !q || q[2] == 'S' || q[2] == 'D' || q[2] == 'Z' || q[2] == 'X' || q[2] == 'T';
}
static int thr_poll(void) {
  if (__atomic_sub_fetch(&thr_budget, 1, __ATOMIC_RELAXED) <= 0) return 0;
  struct timespec t = { 0, 100000 };
  syscall(SYS_nanosleep, &t, NULL);
  return 1;
}
static void *thr_main(void *a) {
  struct thr *t = a;
  t->tid = syscall(SYS_gettid);
  if (t->hold) {
    __atomic_store_n(&t->state, TH_HELD, __ATOMIC_RELEASE);
    int main_tid = syscall(SYS_getpid), quiet = 0;
    while (thr_poll()) {
      int go = thr_blocked(main_tid);
      for (int i = 0; go && i < nthr && i < MAXTHR; i++) {
        struct thr *o = &thrs[i];
        if (o == t) continue;
        int st = __atomic_load_n(&o->state, __ATOMIC_ACQUIRE);
        if (st == TH_HELD) { if (o->rank < t->rank) go = 0; }
        else if (st == TH_RUN && (!o->tid || !thr_blocked(o->tid))) go = 0;
      }
      quiet = go ? quiet + 1 : 0;
      if (quiet >= 3) break;
    }
  }
  __atomic_store_n(&t->state, TH_RUN, __ATOMIC_RELEASE);
  void *r = t->fn(t->arg);
  __atomic_store_n(&t->state, TH_DONE, __ATOMIC_RELEASE);
  return r;
}
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  int k;
  if (!ON || (k = __atomic_fetch_add(&nthr, 1, __ATOMIC_RELAXED)) >= MAXTHR) return real(th, attr, fn, arg);
  uint64_t r = thr_rnd();
  struct thr *t = &thrs[k];
  t->fn = fn; t->arg = arg; t->rank = r; t->hold = r % 5 < 2;
  __atomic_store_n(&t->state, t->hold ? TH_HELD : TH_RUN, __ATOMIC_RELEASE);
  int e = real(th, attr, thr_main, t);
  if (e) { t->state = TH_DONE; return e; }
  if (t->hold) C->counters[CT_PREEMPT]++;
  else if (r % 5 < 4) {
    C->counters[CT_PREEMPT]++;
    for (int i = 0; i < 500 && __atomic_load_n(&t->state, __ATOMIC_ACQUIRE) == TH_RUN && thr_poll(); i++)
      if (i >= 3 && t->tid && thr_blocked(t->tid)) break;
  }
  return 0;
}
#endif
