/* Deterministic libc I/O fault injector (LD_PRELOAD).
 *
 * Inert until iof_arm() is called.  Only files below the armed prefix are
 * touched.  Every decision is a pure function of the plan handed over by the
 * simulator and of the sequence of operations, so one plan is one execution.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPENW, OP_OPENR, OP_WRITE, OP_READ, OP_CLOSEW, OP_TRUNC, OP_SYNC, OP_UNLINK, OP_MKDIR, OP_RENAME, N_OP };
enum { A_ERR, A_SHORT, A_TORN, A_CRASH, A_EINTR, N_ACT };

#define MAXFD 4096
#define MAXPLAN 64
static int armed;
static char prefix[PATH_MAX];
static size_t prefix_len;
static unsigned char tracked[MAXFD]; /* 1 = read, 2 = write */
static long opcount[N_OP];
static long fired[N_OP][N_ACT];
static long fired_full;
static long long full_budget = -1; /* bytes until the disk is full, -1: never */
static long long bytes_written, bytes_read;
static uint64_t dirseed; /* 0: leave the directory order alone */
static long dir_permuted;
static struct { int op, act; long k; long arg; int err; } plan[MAXPLAN];
static int n_plan;

#define REAL(name) ({ static __typeof__(&name) p_; if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

int iof_present(void) { return 1; }
void iof_reset(void) {
    armed = 0; n_plan = 0; full_budget = -1; dirseed = 0; fired_full = 0; dir_permuted = 0;
    bytes_written = bytes_read = 0;
    memset(opcount, 0, sizeof opcount); memset(fired, 0, sizeof fired); memset(tracked, 0, sizeof tracked);
}
void iof_arm(const char *p) { strncpy(prefix, p, sizeof prefix - 1); prefix_len = strlen(prefix); armed = 1; }
void iof_disarm(void) { armed = 0; }
void iof_add(int op, long k, int act, long arg, int err) {
    if (n_plan < MAXPLAN) { plan[n_plan].op = op; plan[n_plan].k = k; plan[n_plan].act = act; plan[n_plan].arg = arg; plan[n_plan].err = err; n_plan++; }
}
void iof_full(long long budget) { full_budget = budget; }
void iof_dirseed(uint64_t s) { dirseed = s; }
long iof_opcount(int op) { return opcount[op]; }
long iof_fired(int op, int act) { return fired[op][act]; }
long iof_fired_full(void) { return fired_full; }
long iof_dir_permuted(void) { return dir_permuted; }
long long iof_bytes_written(void) { return bytes_written; }
long long iof_bytes_read(void) { return bytes_read; }

static int match(const char *path) {
    char buf[PATH_MAX];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        size_t n = strlen(buf);
        if (n + strlen(path) + 2 > sizeof buf) return 0;
        buf[n] = '/'; strcpy(buf + n + 1, path); path = buf;
    }
    return strncmp(path, prefix, prefix_len) == 0;
}
/* next planned fault for this operation, or -1 */
static int due(int op) {
    long k = opcount[op]++;
    for (int i = 0; i < n_plan; i++)
        if (plan[i].op == op && plan[i].k == k) return i;
    return -1;
}
static int simple(int op) { /* operations which can only fail or crash */
    int i = due(op);
    if (i < 0) return 0;
    fired[op][plan[i].act]++;
    if (plan[i].act == A_CRASH) _exit(77);
    errno = plan[i].err ? plan[i].err : EIO;
    return -1;
}
static int on_open(const char *path, int flags) {
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (!match(path)) return 0;
    if (w && full_budget == 0 && (flags & O_CREAT)) { /* a full disk cannot hold another entry */
        struct stat st;
        if (stat(path, &st) != 0) { fired_full++; errno = ENOSPC; return -1; }
    }
    if (simple(w ? OP_OPENW : OP_OPENR)) return -1;
    return w ? 2 : 1;
}
static void track(int fd, int t) { if (fd >= 0 && fd < MAXFD) tracked[fd] = (unsigned char)t; }

#define OPENER(name) \
int name(const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    int t = on_open(path, flags); \
    if (t < 0) return -1; \
    int fd = REAL(name)(path, flags, mode); track(fd, t); return fd; }
OPENER(open)
OPENER(open64)
#define OPENERAT(name) \
int name(int d, const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    int t = (d == AT_FDCWD || (path[0] == '/')) ? on_open(path, flags) : 0; \
    if (t < 0) return -1; \
    int fd = REAL(name)(d, path, flags, mode); track(fd, t); return fd; }
OPENERAT(openat)
OPENERAT(openat64)

/* decide a write of n bytes: returns how many to write, *fail says errno after it */
static ssize_t plan_write(size_t n, int *fail) {
    *fail = 0;
    int i = due(OP_WRITE);
    if (i >= 0) {
        fired[OP_WRITE][plan[i].act]++;
        size_t part = n ? (size_t)((double)n * (double)plan[i].arg / 1000.0) : 0;
        switch (plan[i].act) {
        case A_ERR: *fail = plan[i].err ? plan[i].err : EIO; return 0;
        case A_EINTR: *fail = EINTR; return 0;
        case A_SHORT: return part ? (ssize_t)part : (n ? 1 : 0);
        case A_TORN: *fail = plan[i].err ? plan[i].err : ENOSPC; return (ssize_t)part;
        case A_CRASH: *fail = -1; return (ssize_t)part;
        }
    }
    if (full_budget >= 0 && (long long)n > full_budget) {
        fired_full++;
        *fail = full_budget > 0 ? 0 : ENOSPC; /* first a short write, then ENOSPC */
        return (ssize_t)full_budget;
    }
    return (ssize_t)n;
}
static void wrote(ssize_t r) { if (r > 0) { bytes_written += r; if (full_budget >= 0) { full_budget -= r; if (full_budget < 0) full_budget = 0; } } }

ssize_t write(int fd, const void *b, size_t n) {
    if (!armed || fd < 0 || fd >= MAXFD || tracked[fd] != 2) return REAL(write)(fd, b, n);
    int fail; ssize_t m = plan_write(n, &fail);
    ssize_t r = 0;
    if (m > 0) r = REAL(write)(fd, b, (size_t)m);
    wrote(r);
    if (fail == -1) _exit(77);
    if (fail) { errno = fail; return -1; }
    return r;
}
#define PWRITER(name, offt) \
ssize_t name(int fd, const void *b, size_t n, offt off) { \
    if (!armed || fd < 0 || fd >= MAXFD || tracked[fd] != 2) return REAL(name)(fd, b, n, off); \
    int fail; ssize_t m = plan_write(n, &fail); \
    ssize_t r = 0; \
    if (m > 0) r = REAL(name)(fd, b, (size_t)m, off); \
    wrote(r); \
    if (fail == -1) _exit(77); \
    if (fail) { errno = fail; return -1; } \
    return r; }
PWRITER(pwrite, off_t)
PWRITER(pwrite64, off64_t)

static ssize_t plan_read(size_t n, int *fail) {
    *fail = 0;
    int i = due(OP_READ);
    if (i >= 0) {
        fired[OP_READ][plan[i].act]++;
        switch (plan[i].act) {
        case A_EINTR: *fail = EINTR; return 0;
        case A_SHORT: { size_t part = (size_t)((double)n * (double)plan[i].arg / 1000.0); return part ? (ssize_t)part : (n ? 1 : 0); }
        default: *fail = plan[i].err ? plan[i].err : EIO; return 0;
        }
    }
    return (ssize_t)n;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd]) return REAL(read)(fd, b, n);
    int fail; ssize_t m = plan_read(n, &fail);
    if (fail) { errno = fail; return -1; }
    ssize_t r = REAL(read)(fd, b, (size_t)m);
    if (r > 0) bytes_read += r;
    return r;
}
#define PREADER(name, offt) \
ssize_t name(int fd, void *b, size_t n, offt off) { \
    if (!armed || fd < 0 || fd >= MAXFD || !tracked[fd]) return REAL(name)(fd, b, n, off); \
    int fail; ssize_t m = plan_read(n, &fail); \
    if (fail) { errno = fail; return -1; } \
    ssize_t r = REAL(name)(fd, b, (size_t)m, off); \
    if (r > 0) bytes_read += r; \
    return r; }
PREADER(pread, off_t)
PREADER(pread64, off64_t)

int close(int fd) {
    int t = (fd >= 0 && fd < MAXFD) ? tracked[fd] : 0;
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    int bad = 0;
    if (armed && t == 2) bad = simple(OP_CLOSEW);
    int e = errno;
    int r = REAL(close)(fd);
    if (bad) { errno = e; return -1; }
    return r;
}
#define TRUNCER(name, offt) \
int name(int fd, offt n) { \
    if (armed && fd >= 0 && fd < MAXFD && tracked[fd] == 2 && simple(OP_TRUNC)) return -1; \
    return REAL(name)(fd, n); }
TRUNCER(ftruncate, off_t)
TRUNCER(ftruncate64, off64_t)
int fsync(int fd) { if (armed && fd >= 0 && fd < MAXFD && tracked[fd] == 2 && simple(OP_SYNC)) return -1; return REAL(fsync)(fd); }
int fdatasync(int fd) { if (armed && fd >= 0 && fd < MAXFD && tracked[fd] == 2 && simple(OP_SYNC)) return -1; return REAL(fdatasync)(fd); }
int unlink(const char *p) { if (match(p) && simple(OP_UNLINK)) return -1; return REAL(unlink)(p); }
int mkdir(const char *p, mode_t m) {
    if (match(p)) { if (full_budget == 0) { fired_full++; errno = ENOSPC; return -1; } if (simple(OP_MKDIR)) return -1; }
    return REAL(mkdir)(p, m);
}
int rename(const char *a, const char *b) { if (match(b) && simple(OP_RENAME)) return -1; return REAL(rename)(a, b); }

/* Directory order: entries are collected, sorted by name and shuffled. */
struct dirlist { DIR *d; struct dirent64 *e; int n, i; struct dirlist *next; };
static struct dirlist *dirs;
DIR *opendir(const char *p) {
    DIR *d = REAL(opendir)(p);
    if (d && dirseed && match(p)) {
        struct dirlist *l = calloc(1, sizeof *l);
        int cap = 0; struct dirent64 *x;
        l->d = d;
        while ((x = REAL(readdir64)(d))) {
            if (l->n == cap) { cap = cap ? cap * 2 : 64; l->e = realloc(l->e, (size_t)cap * sizeof *l->e); }
            memcpy(&l->e[l->n++], x, sizeof *x < x->d_reclen ? sizeof *x : x->d_reclen);
        }
        for (int i = 1; i < l->n; i++) { /* insertion sort */
            struct dirent64 t = l->e[i]; int j = i;
            while (j > 0 && strcmp(l->e[j - 1].d_name, t.d_name) > 0) { l->e[j] = l->e[j - 1]; j--; }
            l->e[j] = t;
        }
        uint64_t s = dirseed;
        for (int i = l->n - 1; i > 0; i--) {
            s = s * 6364136223846793005ULL + 1442695040888963407ULL;
            int j = (int)((s >> 33) % (uint64_t)(i + 1));
            struct dirent64 t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t;
        }
        if (l->n > 3) dir_permuted++;
        l->next = dirs; dirs = l;
    }
    return d;
}
static struct dirent64 *next_entry(DIR *d, int *mine) {
    *mine = 0;
    for (struct dirlist *l = dirs; l; l = l->next)
        if (l->d == d) { *mine = 1; return l->i < l->n ? &l->e[l->i++] : NULL; }
    return NULL;
}
struct dirent64 *readdir64(DIR *d) { int mine; struct dirent64 *e = next_entry(d, &mine); return mine ? e : REAL(readdir64)(d); }
struct dirent *readdir(DIR *d) { int mine; struct dirent64 *e = next_entry(d, &mine); return mine ? (struct dirent *)e : REAL(readdir)(d); }
int closedir(DIR *d) {
    for (struct dirlist **q = &dirs; *q; q = &(*q)->next)
        if ((*q)->d == d) { struct dirlist *l = *q; *q = l->next; free(l->e); free(l); break; }
    return REAL(closedir)(d);
}

/* Wall clock: starts where the simulator says and advances with every reading;
 * a step (positive or negative) is added at the k-th reading. */
#include <sys/time.h>
#include <time.h>
static int clk_on; static long long clk_ns, clk_tick, clk_jump; static long clk_n, clk_jump_at = -1;
void iof_clock(long long start_ns, long long tick_ns, long jump_at, long long jump_ns) {
    clk_on = start_ns > 0; clk_ns = start_ns; clk_tick = tick_ns; clk_n = 0; clk_jump_at = jump_at; clk_jump = jump_ns;
}
long iof_clock_reads(void) { return clk_n; }
static long long clk_now(void) {
    if (clk_n++ == clk_jump_at) clk_ns += clk_jump;
    clk_ns += clk_tick;
    return clk_ns;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!clk_on || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return REAL(clock_gettime)(c, t);
    long long n = clk_now();
    t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL;
    return 0;
}
time_t time(time_t *p) {
    if (!clk_on) return REAL(time)(p);
    time_t t = (time_t)(clk_now() / 1000000000LL);
    if (p) *p = t;
    return t;
}
int gettimeofday(struct timeval *t, void *z) {
    if (!clk_on) return REAL(gettimeofday)(t, z);
    long long n = clk_now();
    t->tv_sec = n / 1000000000LL; t->tv_usec = n % 1000000000LL / 1000;
    return 0;
}
