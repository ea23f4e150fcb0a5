/* I/O seam: an LD_PRELOAD library that owns every file operation on paths
 * below a simulated root.  Operations are numbered in program order; a fault
 * plan, set by the simulator, decides what each of them does.  Everything
 * outside the root is passed through untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPENR = 1, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_RENAME,
       OP_UNLINK, OP_MKDIR, OP_TRUNC, OP_SYNC, OP_STAT };
enum { A_ERR = 1, A_ERR_PERSIST, A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_PART,
       A_SHORT, A_EINTR, A_PART_ERR, A_TRUNC_READ };

#define MAXFD 4096
#define MAXLOG 20000
#define MAXPLAN 64
#define CRASH_CODE 77

static char root[1024];
static size_t rootlen;
static int active, counting;
static signed char fdkind[MAXFD];      /* 0 foreign, 1 tracked */
static char fdname[MAXFD][48];

typedef struct { int op; long size, ret; int err; int fault; char name[48]; } rec_t;
static rec_t oplog[MAXLOG];
static int nlog;                        /* number of operations so far */

typedef struct { int k, action, err, mask; long arg; int fired; } plan_t;
static plan_t plan[MAXPLAN];
static int nplan;
static int rnd_short, rnd_eintr;        /* per-mille */
static uint64_t rng;
static int64_t clock_base = -1, clock_step;   /* simulated clock, ns */
static int64_t clock_now;
static int gate_out = -1, gate_in = -1;   /* another process decides when we go on */

static uint64_t next_rnd(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng;
}

/* ---- control interface ------------------------------------------------ */
void dst_reset(const char *r) {
    active = 0; nlog = 0; nplan = 0; rnd_short = rnd_eintr = 0;
    memset(fdkind, 0, sizeof fdkind);
    if (r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
}
void dst_active(int on) { active = on; }
int dst_plan(int k, int action, int err, long arg, int mask) {
    if (nplan >= MAXPLAN) return -1;
    plan_t *p = &plan[nplan++];
    p->k = k; p->action = action; p->err = err; p->arg = arg; p->mask = mask; p->fired = 0;
    return 0;
}
void dst_random(uint64_t seed, int shorts, int eintrs) {
    rng = seed ? seed : 88172645463325252ULL; rnd_short = shorts; rnd_eintr = eintrs;
}
int dst_nlog(void) { return nlog; }
int dst_fired(int i) { return i < nplan ? plan[i].fired : 0; }
int dst_rec(int i, int *op, long *size, long *ret, int *err, int *fault, char *name) {
    if (i < 0 || i >= nlog || i >= MAXLOG) return -1;
    rec_t *r = &oplog[i];
    *op = r->op; *size = r->size; *ret = r->ret; *err = r->err; *fault = r->fault;
    strcpy(name, r->name); return 0;
}
void dst_clock(int64_t start_ns, int64_t step_ns) { clock_base = start_ns; clock_now = start_ns; clock_step = step_ns; }
int64_t dst_clock_now(void) { return clock_now; }

/* ---- several processes: every operation waits for its turn ---------------- */
void dst_gate(int out, int in) { gate_out = out; gate_in = in; }
static void gate(int op) {
    if (gate_out < 0) return;
    int e = errno;
    char b = (char)op;
    if (syscall(SYS_write, gate_out, &b, 1) != 1 || syscall(SYS_read, gate_in, &b, 1) != 1 || b == 'k')
        syscall(SYS_exit_group, CRASH_CODE);
    errno = e;
}

/* ---- helpers ---------------------------------------------------------- */
static int under(const char *path, char *rel) {
    char buf[2048];
    if (!active || !path || !rootlen) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        size_t n = strlen(buf);
        if (n + 2 + strlen(path) > sizeof buf) return 0;
        buf[n] = '/'; strcpy(buf + n + 1, path); path = buf;
    }
    if (strncmp(path, root, rootlen) != 0 || (path[rootlen] != '/' && path[rootlen] != 0)) return 0;
    const char *b = path + rootlen; if (*b == '/') b++;
    size_t n = strlen(b);
    if (n > 47) b += n - 47;
    strcpy(rel, b);
    return 1;
}
static rec_t dummy;
static rec_t *newrec(int op, const char *name, long size) {
    gate(op);
    int i = nlog++;
    rec_t *r = i < MAXLOG ? &oplog[i] : &dummy;
    r->op = op; r->size = size; r->ret = 0; r->err = 0; r->fault = 0;
    strncpy(r->name, name, 47); r->name[47] = 0;
    return r;
}
/* returns the planned action for the operation just numbered (nlog-1) */
static plan_t *decide(int op) {
    int k = nlog - 1;
    for (int i = 0; i < nplan; i++) {
        plan_t *p = &plan[i];
        if (p->action == A_ERR_PERSIST) {
            if (k >= p->k && (p->mask & (1 << op))) { p->fired++; return p; }
        } else if (p->k == k && (p->mask & (1 << op))) { p->fired++; return p; }
    }
    return 0;
}
static void crash(void) { syscall(SYS_exit_group, CRASH_CODE); }

/* for operations that either happen or not: open, close, rename, ...
 * returns 1 when the operation must fail with errno already set */
static int pre(rec_t *r, int op, plan_t **pp) {
    plan_t *p = decide(op);
    *pp = p;
    if (!p) {
        if (rnd_eintr && op != OP_OPENR && op != OP_OPENW && op != OP_CLOSE && op != OP_RENAME && op != OP_UNLINK && op != OP_MKDIR && op != OP_STAT
            && (int)(next_rnd() % 1000) < rnd_eintr) {
            r->fault = A_EINTR; r->ret = -1; r->err = EINTR; errno = EINTR; return 1;
        }
        return 0;
    }
    r->fault = p->action;
    switch (p->action) {
    case A_CRASH_BEFORE: crash(); break;
    case A_CRASH_PART: if (op != OP_WRITE) crash(); break;
    case A_EINTR:
        if (op == OP_CLOSE || op == OP_RENAME || op == OP_UNLINK || op == OP_MKDIR) { r->fault = 0; return 0; }
        r->ret = -1; r->err = EINTR; errno = EINTR; return 1;
    case A_ERR: case A_ERR_PERSIST:
        r->ret = -1; r->err = p->err; errno = p->err; return 1;
    case A_PART_ERR: if (op != OP_WRITE) { r->ret = -1; r->err = p->err; errno = p->err; return 1; } break;
    }
    return 0;
}
static void post(rec_t *r, plan_t *p, long ret) {
    int e = errno;
    r->ret = ret; if (ret < 0) r->err = e;
    if (p && p->action == A_CRASH_AFTER) crash();
    errno = e;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int iswr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); }
static void track(int fd, const char *rel) {
    if (fd >= 0 && fd < MAXFD) { fdkind[fd] = 1; strcpy(fdname[fd], rel); }
}
static int tracked(int fd) { return active && fd >= 0 && fd < MAXFD && fdkind[fd]; }

/* ---- open family ------------------------------------------------------ */
static int do_open(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    char rel[64];
    if (!under(path, rel) || (flags & O_DIRECTORY)) {
        int fd = real(path, flags, mode);
        if (fd >= 0 && fd < MAXFD) fdkind[fd] = 0;
        return fd;
    }
    int op = iswr(flags) ? OP_OPENW : OP_OPENR; plan_t *p;
    rec_t *r = newrec(op, rel, flags);
    if (pre(r, op, &p)) return -1;
    int fd = real(path, flags, mode);
    track(fd, rel);
    post(r, p, fd >= 0 ? 0 : -1);
    return fd;
}
int open(const char *path, int flags, ...) {
    REAL(open); mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return do_open(real, path, flags, m);
}
int open64(const char *path, int flags, ...) {
    REAL(open64); mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return do_open(real, path, flags, m);
}
int openat(int dir, const char *path, int flags, ...) {
    REAL(openat); mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    if (dir == AT_FDCWD || path[0] == '/') { static int (*ro)(const char *, int, ...); if (!ro) ro = dlsym(RTLD_NEXT, "open"); return do_open(ro, path, flags, m); }
    return real(dir, path, flags, m);
}
int openat64(int dir, const char *path, int flags, ...) {
    REAL(openat64); mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    if (dir == AT_FDCWD || path[0] == '/') { static int (*ro)(const char *, int, ...); if (!ro) ro = dlsym(RTLD_NEXT, "open"); return do_open(ro, path, flags, m); }
    return real(dir, path, flags, m);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* stdio: libstdc++'s file buffers open with fopen and then read and write the
 * descriptor directly, so tracking the descriptor is enough */
static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *path, const char *mode) {
    char rel[64];
    if (!under(path, rel)) { FILE *f = real(path, mode); if (f) { int fd = fileno(f); if (fd >= 0 && fd < MAXFD) fdkind[fd] = 0; } return f; }
    int op = mode[0] == 'r' && !strchr(mode, '+') ? OP_OPENR : OP_OPENW; plan_t *p;
    rec_t *r = newrec(op, rel, 0);
    if (pre(r, op, &p)) return 0;
    FILE *f = real(path, mode);
    if (f) track(fileno(f), rel);
    post(r, p, f ? 0 : -1);
    return f;
}
int fclose(FILE *f) {
    REAL(fclose);
    int fd = f ? fileno(f) : -1;
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) fdkind[fd] = 0; return real(f); }
    plan_t *p; rec_t *r = newrec(OP_CLOSE, fdname[fd], 0);
    int bad = pre(r, OP_CLOSE, &p), e = errno;
    fdkind[fd] = 0;
    int ret = real(f);
    if (bad) { errno = e; return -1; }
    post(r, p, ret);
    return ret;
}
FILE *fopen(const char *p, const char *m) { REAL(fopen); return do_fopen(real, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); return do_fopen(real, p, m); }

/* ---- descriptors ------------------------------------------------------ */
int close(int fd) {
    REAL(close);
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) fdkind[fd] = 0; return real(fd); }
    plan_t *p; rec_t *r = newrec(OP_CLOSE, fdname[fd], 0);
    int bad = pre(r, OP_CLOSE, &p), e = errno;
    fdkind[fd] = 0;
    int ret = real(fd);
    if (bad) { errno = e; return -1; }     /* like Linux: closed even on error */
    post(r, p, ret);
    return ret;
}
static ssize_t short_len(rec_t *r, plan_t *p, size_t n) {
    if (p && p->action == A_SHORT && n > 1) { size_t m = p->arg > 0 && (size_t)p->arg < n ? (size_t)p->arg : (n + 1) / 2; return m; }
    if (!p && rnd_short && n > 1 && (int)(next_rnd() % 1000) < rnd_short) { r->fault = A_SHORT; return 1 + next_rnd() % (n - 1 < 4000 ? n - 1 : 4000); }
    return n;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!tracked(fd)) return real(fd, b, n);
    plan_t *p; rec_t *r = newrec(OP_READ, fdname[fd], n);
    if (pre(r, OP_READ, &p)) return -1;
    if (p && p->action == A_TRUNC_READ) { r->ret = 0; return 0; }
    ssize_t ret = real(fd, b, short_len(r, p, n));
    post(r, p, ret);
    return ret;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!tracked(fd)) return real(fd, b, n);
    plan_t *p; rec_t *r = newrec(OP_WRITE, fdname[fd], n);
    if (pre(r, OP_WRITE, &p)) return -1;
    if (p && (p->action == A_CRASH_PART || p->action == A_PART_ERR)) {
        size_t m = p->arg >= 0 ? (size_t)(n * (p->arg / 1000.0)) : n / 2;
        size_t done = 0;
        while (done < m) { ssize_t w = real(fd, (const char *)b + done, m - done); if (w <= 0) break; done += w; }
        if (p->action == A_CRASH_PART) crash();
        if (done == 0) { r->ret = -1; r->err = p->err; errno = p->err; return -1; }
        /* a partial write; the rest fails from now on (disk full) */
        p->action = A_ERR_PERSIST; p->mask = (1 << OP_WRITE) | (1 << OP_OPENW);
        r->ret = done; return done;
    }
    ssize_t ret = real(fd, b, short_len(r, p, n));
    post(r, p, ret);
    return ret;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    REAL(pread);
    if (!tracked(fd)) return real(fd, b, n, o);
    plan_t *p; rec_t *r = newrec(OP_READ, fdname[fd], n);
    if (pre(r, OP_READ, &p)) return -1;
    if (p && p->action == A_TRUNC_READ) return 0;
    ssize_t ret = real(fd, b, short_len(r, p, n), o); post(r, p, ret); return ret;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(readv);
    if (!tracked(fd)) return real(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!tracked(fd)) return real(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
int dup(int fd) { REAL(dup); int r = real(fd); if (r >= 0 && r < MAXFD) { fdkind[r] = tracked(fd); if (fdkind[r]) strcpy(fdname[r], fdname[fd]); } return r; }
#define SIMPLE_FD(fn, OP) \
int fn(int fd) { REAL(fn); if (!tracked(fd)) return real(fd); \
    plan_t *p; rec_t *r = newrec(OP, fdname[fd], 0); if (pre(r, OP, &p)) return -1; \
    int ret = real(fd); post(r, p, ret); return ret; }
SIMPLE_FD(fsync, OP_SYNC)
SIMPLE_FD(fdatasync, OP_SYNC)
int ftruncate(int fd, off_t l) {
    REAL(ftruncate); if (!tracked(fd)) return real(fd, l);
    plan_t *p; rec_t *r = newrec(OP_TRUNC, fdname[fd], l); if (pre(r, OP_TRUNC, &p)) return -1;
    int ret = real(fd, l); post(r, p, ret); return ret;
}
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }

/* ---- names ------------------------------------------------------------ */
#define SIMPLE_PATH(fn, OP, args, call, path) \
int fn args { REAL(fn); char rel[64]; if (!under(path, rel)) return real call; \
    plan_t *p; rec_t *r = newrec(OP, rel, 0); if (pre(r, OP, &p)) return -1; \
    int ret = real call; post(r, p, ret); return ret; }
SIMPLE_PATH(unlink, OP_UNLINK, (const char *a), (a), a)
SIMPLE_PATH(remove, OP_UNLINK, (const char *a), (a), a)
SIMPLE_PATH(rmdir, OP_UNLINK, (const char *a), (a), a)
SIMPLE_PATH(unlinkat, OP_UNLINK, (int d, const char *a, int f), (d, a, f), a)
SIMPLE_PATH(mkdir, OP_MKDIR, (const char *a, mode_t m), (a, m), a)
SIMPLE_PATH(mkdirat, OP_MKDIR, (int d, const char *a, mode_t m), (d, a, m), a)
SIMPLE_PATH(rename, OP_RENAME, (const char *a, const char *b), (a, b), b)
SIMPLE_PATH(renameat, OP_RENAME, (int d, const char *a, int e, const char *b), (d, a, e, b), b)
SIMPLE_PATH(link, OP_RENAME, (const char *a, const char *b), (a, b), b)
SIMPLE_PATH(symlink, OP_RENAME, (const char *a, const char *b), (a, b), b)
SIMPLE_PATH(truncate, OP_TRUNC, (const char *a, off_t l), (a, l), a)

/* ---- clock ------------------------------------------------------------ */
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(clock_gettime);
    if (clock_base < 0 || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_REALTIME_COARSE)) return real(id, ts);
    clock_now += clock_step;
    ts->tv_sec = clock_now / 1000000000LL; ts->tv_nsec = clock_now % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(gettimeofday);
    if (clock_base < 0) return real(tv, tz);
    clock_now += clock_step;
    tv->tv_sec = clock_now / 1000000000LL; tv->tv_usec = clock_now % 1000000000LL / 1000; return 0;
}
time_t time(time_t *t) {
    REAL(time);
    if (clock_base < 0) return real(t);
    clock_now += clock_step; time_t r = clock_now / 1000000000LL; if (t) *t = r; return r;
}
