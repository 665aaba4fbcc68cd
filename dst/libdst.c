/* libdst: deterministic simulation runtime, preloaded into the program under test.
 *
 * One seed-driven scheduler decides which thread runs (exactly one at a time), what the clock
 * says, what the entropy source returns, in which order directories are listed and which file,
 * thread and lock operations fail or kill the process.  Everything is a pure function of the plan
 * file named by DST_PLAN; without that variable every entry point is a plain pass-through.
 *
 * Plan (text, one item per line):
 *   seed N            scheduler / knob PRNG
 *   entropy N         what getrandom() returns
 *   policy seq | rw PERMILLE | pct DEPTH HORIZON | starve TID | replay
 *   maxsteps N        step limit (status 4)
 *   tty 0|1           isatty(1/2)
 *   tick NS           clock advance per clock read
 *   spurious PERMILLE spurious futex wake-ups
 *   shuffledir 0|1
 *   dev STEP TID      (policy replay) run TID at STEP if it is runnable
 *   fault KIND CLASS FILEPREFIX NTH STICKY ARG
 *        KIND  crash-before crash-torn crash-after enospc eio eintr short emfile eacces eagain
 *              stall clockjump
 *        CLASS open write read fsync rename unlink thread close any
 *        FILEPREFIX  prefix of the base name, * for every file
 *        NTH   0-based among the operations that match CLASS and FILEPREFIX
 *        STICKY 1: every matching operation from NTH on
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---------- raw system calls (never through our own wrappers) ---------- */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)
static inline long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ---------- trace (shared memory mapped file, read by the driver) ---------- */
enum { OP_OPEN, OP_WRITE, OP_READ, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_THREAD, OP_CLOSE,
       OP_FUTEX, OP_YIELD, OP_CLOCK, OP_JOIN, OP_EXIT, OP_STDIO, OP_SLEEP, OP_WAKE, NOPS };
enum { F_CRASH_BEFORE, F_CRASH_TORN, F_CRASH_AFTER, F_ENOSPC, F_EIO, F_EINTR, F_SHORT, F_EMFILE,
       F_EACCES, F_EAGAIN, F_STALL, F_CLOCKJUMP, F_SPURIOUS, F_DIRSHUFFLE, NFAULTS };
#define MAXOPS 60000
#define MAXDEV 60000
#define MAXFILES 512
struct op { uint32_t step; uint16_t tid; uint16_t file; uint8_t cls; uint8_t fault; uint16_t flags; int32_t res; };
struct dev { uint32_t step; uint32_t tid; };
struct trace {
    uint64_t magic;
    uint32_t status; /* 0 running 1 exit 2 injected crash 3 deadlock 4 step limit 5 internal */
    uint32_t nthreads;
    uint64_t steps, switches, clock_ns, hash, nfops;
    uint32_t nops, ndev, nfiles, maxlive;
    uint32_t fired[32];
    uint32_t bystep[NOPS]; uint32_t pad;
    char files[MAXFILES][64];
    struct op ops[MAXOPS];
    struct dev devs[MAXDEV];
};
static struct trace *T;
static struct trace dummy_trace;

/* ---------- plan ---------- */
enum { P_SEQ, P_RW, P_PCT, P_STARVE, P_REPLAY };
struct fault { int kind, cls; char prefix[64]; uint32_t nth; int sticky; uint64_t arg; uint32_t seen; };
#define MAXFAULT 64
#define MAXT 4096
static struct {
    uint64_t seed, entropy, maxsteps, tick, p1, p2;
    int policy, tty, spurious, shuffledir;
    int nfault; struct fault f[MAXFAULT];
    int ndev; struct dev *dev; int devpos;
} P;
static int active;

/* ---------- threads ---------- */
enum { S_RUN, S_FUTEX, S_JOIN, S_SLEEP, S_DONE, S_NEW };
struct thr {
    int tid, state;
    volatile int go;          /* real futex word */
    uint32_t *addr; uint32_t bits; uint64_t deadline; int timedout;
    int joinon;
    uint64_t ectr; uint64_t estream;
    int64_t prio;
    uint64_t lastrun;
    pthread_t h; int detached;
    void *(*fn)(void *); void *arg;
};
static struct thr thr[MAXT];
static int nthr;
static __thread struct thr *self;
static uint64_t clk = 1000000000ull, jump_real;
static uint64_t rng_state;
static uint64_t pctpts[64]; static int npct; static int64_t pctlow = 0;
static pthread_key_t key;
static uint64_t spur_ctr;

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rnd(void) { rng_state += 0x9e3779b97f4a7c15ull; return mix(rng_state); }

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static int (*real_trylock)(pthread_mutex_t *);
static int (*real_unlock)(pthread_mutex_t *);
static int (*real_lock)(pthread_mutex_t *);
static struct dirent64 *(*real_readdir64)(DIR *);
static int (*real_closedir)(DIR *);

static void die(uint32_t status, int code) {
    T->status = status;
    T->clock_ns = clk;
    RAW(SYS_exit_group, code, 0, 0);
    for (;;) ;
}
static void rawwait(volatile int *w) {
    while (!__atomic_load_n(w, __ATOMIC_ACQUIRE))
        raw6(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void rawwake(volatile int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static int runnable[MAXT];
static int collect(void) {
    int n = 0;
    for (int i = 0; i < nthr; i++) if (thr[i].state == S_RUN) runnable[n++] = i;
    return n;
}
/* nobody can run: let simulated time pass to the next deadline, or report a deadlock */
static int advance_time(void) {
    uint64_t best = UINT64_MAX;
    for (int i = 0; i < nthr; i++)
        if ((thr[i].state == S_FUTEX || thr[i].state == S_SLEEP) && thr[i].deadline < best)
            best = thr[i].deadline;
    if (best == UINT64_MAX) return 0;
    if (best > clk) clk = best;
    for (int i = 0; i < nthr; i++)
        if ((thr[i].state == S_FUTEX || thr[i].state == S_SLEEP) && thr[i].deadline <= clk) {
            thr[i].timedout = 1; thr[i].state = S_RUN;
        }
    return 1;
}
/* choose who runs next.  yielding: the caller asked to let others go first */
static int choose(int n, int cur, int yielding) {
    int curok = cur >= 0 && thr[cur].state == S_RUN;
    int dflt = (curok && !yielding) ? cur : -1;
    if (dflt < 0) { /* round robin after cur */
        dflt = runnable[0];
        for (int i = 0; i < n; i++) if (runnable[i] > cur) { dflt = runnable[i]; break; }
    }
    int c = dflt;
    switch (P.policy) {
    case P_SEQ: break;
    case P_RW:
        if (!curok || yielding || rnd() % 1000 < P.p1) c = runnable[rnd() % n];
        break;
    case P_PCT: {
        for (int i = 0; i < npct; i++)
            if (pctpts[i] == T->steps && cur >= 0) thr[cur].prio = --pctlow;
        if (yielding && cur >= 0) thr[cur].prio = --pctlow;
        int64_t b = INT64_MIN;
        for (int i = 0; i < n; i++) if (thr[runnable[i]].prio > b) { b = thr[runnable[i]].prio; c = runnable[i]; }
        break;
    }
    case P_STARVE: {
        int k = 0, v[MAXT];
        for (int i = 0; i < n; i++) if ((uint64_t)runnable[i] != P.p1) v[k++] = runnable[i];
        if (!k) { c = runnable[0]; break; }
        /* give the starved thread a chance only rarely, or a spinning peer would never progress */
        if (yielding && rnd() % 64 == 0) { c = runnable[rnd() % n]; break; }
        if (curok && !yielding && (uint64_t)cur != P.p1 && rnd() % 8) c = cur;
        else c = v[rnd() % k];
        break;
    }
    case P_REPLAY:
        while (P.devpos < P.ndev && P.dev[P.devpos].step < T->steps) P.devpos++;
        if (P.devpos < P.ndev && P.dev[P.devpos].step == T->steps) {
            int t = (int)P.dev[P.devpos].tid;
            if (t < nthr && thr[t].state == S_RUN) c = t;
        }
        break;
    }
    if (c != dflt) {
        if (T->ndev < MAXDEV) { T->devs[T->ndev].step = (uint32_t)T->steps; T->devs[T->ndev].tid = (uint32_t)c; }
        T->ndev++;
    }
    return c;
}
static void note(int cls, int tid) {
    T->hash = (T->hash ^ (uint64_t)(cls * 4099 + tid + 1)) * 0x100000001b3ull;
    if (cls < NOPS) T->bystep[cls]++;
}
/* hand the token to somebody; returns when this thread is scheduled again */
static void reschedule(int cls, int yielding) {
    struct thr *me = self;
    T->steps++;
    clk += 50;
    if (T->steps > P.maxsteps) die(4, 98);
    int n = collect();
    while (n == 0) {
        if (!advance_time()) die(3, 97);
        n = collect();
    }
    int c = choose(n, me->tid, yielding);
    note(cls, c);
    if (c == me->tid) return;
    T->switches++;
    thr[c].lastrun = T->steps;
    rawwake(&thr[c].go);
    if (me->state == S_DONE) return;
    rawwait(&me->go);
}
static inline int on(void) { return active && self; }

/* ---------- files ---------- */
struct fdi { int used; uint16_t file; int flags; };
static struct fdi fds[4096];
static char cwd[PATH_MAX]; static size_t cwdlen;
static int scratch(const char *p) {
    if (!p) return 0;
    if (p[0] != '/') return strncmp(p, "../", 3) != 0;
    return cwdlen > 1 && strncmp(p, cwd, cwdlen) == 0 && p[cwdlen] == '/';
}
static uint16_t fileid(const char *p) {
    const char *b = strrchr(p, '/'); b = b ? b + 1 : p;
    for (uint32_t i = 0; i < T->nfiles; i++) if (!strncmp(T->files[i], b, 63)) return (uint16_t)i;
    if (T->nfiles >= MAXFILES) return MAXFILES - 1;
    strncpy(T->files[T->nfiles], b, 63);
    return (uint16_t)T->nfiles++;
}
static void logop(int cls, uint16_t file, long res, int fault, int flags) {
    if (T->nops < MAXOPS) {
        struct op *o = &T->ops[T->nops];
        o->step = (uint32_t)T->steps; o->tid = (uint16_t)self->tid; o->file = file; o->cls = (uint8_t)cls;
        o->fault = (uint8_t)(fault + 1); o->flags = (uint16_t)flags; o->res = (int32_t)res;
    }
    T->nops++; T->nfops++;
    T->hash = (T->hash ^ (uint64_t)(cls * 131 + file)) * 0x100000001b3ull;
}
static struct fault *match(int cls, const char *name) {
    struct fault *hit = NULL;
    for (int i = 0; i < P.nfault; i++) {
        struct fault *f = &P.f[i];
        if (f->cls != NOPS && f->cls != cls) continue;
        if (f->prefix[0] != '*' && strncmp(name, f->prefix, strlen(f->prefix))) continue;
        uint32_t k = f->seen++;
        if (k == f->nth || (f->sticky && k > f->nth)) if (!hit) hit = f;
    }
    if (hit) T->fired[hit->kind]++;
    return hit;
}
static int err_of(int kind) {
    switch (kind) {
    case F_ENOSPC: return ENOSPC; case F_EIO: return EIO; case F_EINTR: return EINTR;
    case F_EMFILE: return EMFILE; case F_EACCES: return EACCES; case F_EAGAIN: return EAGAIN;
    }
    return 0;
}
static void side(struct fault *f) {
    if (!f) return;
    if (f->kind == F_STALL) { /* this thread is slow: everyone else gets to run for a while */
        if (self) { self->state = S_SLEEP; self->deadline = clk + f->arg * 1000ull; self->timedout = 0; reschedule(OP_SLEEP, 1); }
    } else if (f->kind == F_CLOCKJUMP) clk += f->arg * 1000000ull;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!on() || (dirfd != AT_FDCWD && path[0] != '/') || !scratch(path) || (flags & O_DIRECTORY))
        return (int)ret(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    reschedule(OP_OPEN, 0);
    uint16_t id = fileid(path);
    struct fault *f = match(OP_OPEN, T->files[id]);
    int fk = f ? f->kind : -1;
    side(f);
    if (f && (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN)) { logop(OP_OPEN, id, -1, fk, 0); die(2, 137); }
    if (f && err_of(fk)) { logop(OP_OPEN, id, -err_of(fk), fk, 0); errno = err_of(fk); return -1; }
    long r = raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
    int fl = ((flags & O_ACCMODE) != O_RDONLY ? 1 : 0) | (flags & O_TRUNC ? 2 : 0) | (flags & O_CREAT ? 4 : 0) | (flags & O_APPEND ? 8 : 0);
    logop(OP_OPEN, id, r, fk, fl);
    if (fk == F_CRASH_AFTER) die(2, 137);
    if (r >= 0 && r < 4096) { fds[r].used = 1; fds[r].file = id; fds[r].flags = fl; }
    return (int)ret(r);
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static ssize_t do_write(int fd, const struct iovec *iov, int cnt, int at, off_t off) {
    struct fdi *d = fd >= 0 && fd < 4096 && fds[fd].used ? &fds[fd] : NULL;
    if (on()) reschedule(d ? OP_WRITE : OP_STDIO, 0);
    size_t total = 0;
    for (int i = 0; i < cnt; i++) total += iov[i].iov_len;
    size_t lim = total;
    int fk = -1;
    if (on() && d) {
        struct fault *f = match(OP_WRITE, T->files[d->file]);
        fk = f ? f->kind : -1;
        side(f);
        if (fk == F_CRASH_BEFORE) { logop(OP_WRITE, d->file, -1, fk, 0); die(2, 137); }
        if (fk == F_CRASH_TORN || fk == F_SHORT || (fk == F_ENOSPC && f->arg)) {
            lim = (size_t)(total * (f->arg % 1000) / 1000);
            if (fk == F_SHORT && lim == 0) lim = 1;
            if (fk == F_SHORT && lim > total) lim = total;
            if (fk == F_ENOSPC) f->arg = 0; /* what fitted was written; from now on nothing fits */
            if (fk == F_ENOSPC && lim == 0) { logop(OP_WRITE, d->file, -ENOSPC, fk, 0); errno = ENOSPC; return -1; }
        } else if (err_of(fk)) { logop(OP_WRITE, d->file, -err_of(fk), fk, 0); errno = err_of(fk); return -1; }
    }
    long r = 0;
    if (lim == total) {
        if (at) r = raw6(SYS_pwritev, fd, (long)iov, cnt, off, 0, 0);
        else r = RAW(SYS_writev, fd, iov, cnt);
    } else {
        size_t left = lim;
        for (int i = 0; i < cnt && left; i++) {
            size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
            long q = at ? raw6(SYS_pwrite64, fd, (long)iov[i].iov_base, k, off + r, 0, 0) : RAW(SYS_write, fd, iov[i].iov_base, k);
            if (q < 0) { if (!r) r = q; break; }
            r += q; left -= (size_t)q;
        }
    }
    if (on() && d) {
        logop(OP_WRITE, d->file, r, fk, 0);
        if (fk == F_CRASH_TORN || fk == F_CRASH_AFTER) die(2, 137);
    }
    return ret(r);
}
ssize_t write(int fd, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, 0, 0); }
ssize_t writev(int fd, const struct iovec *v, int n) { return do_write(fd, v, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, 1, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, 1, o); }

ssize_t read(int fd, void *b, size_t n) {
    struct fdi *d = fd >= 0 && fd < 4096 && fds[fd].used ? &fds[fd] : NULL;
    int fk = -1; size_t lim = n;
    if (on() && d) {
        reschedule(OP_READ, 0);
        struct fault *f = match(OP_READ, T->files[d->file]);
        fk = f ? f->kind : -1;
        side(f);
        if (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN) { logop(OP_READ, d->file, -1, fk, 0); die(2, 137); }
        if (fk == F_SHORT && n > 1) { lim = (size_t)(n * (f->arg % 1000) / 1000); if (!lim) lim = 1; if (lim > 64) lim = 1 + lim % 64; }
        else if (err_of(fk)) { logop(OP_READ, d->file, -err_of(fk), fk, 0); errno = err_of(fk); return -1; }
    }
    long r = RAW(SYS_read, fd, b, lim);
    if (on() && d) { logop(OP_READ, d->file, r, fk, 0); if (fk == F_CRASH_AFTER) die(2, 137); }
    return ret(r);
}
int close(int fd) {
    if (on() && fd >= 0 && fd < 4096 && fds[fd].used) {
        reschedule(OP_CLOSE, 0);
        struct fault *f = match(OP_CLOSE, T->files[fds[fd].file]);
        int fk = f ? f->kind : -1;
        side(f);
        if (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN || fk == F_CRASH_AFTER) { logop(OP_CLOSE, fds[fd].file, -1, fk, 0); die(2, 137); }
        logop(OP_CLOSE, fds[fd].file, 0, fk, 0);
        fds[fd].used = 0;
    }
    return (int)ret(RAW(SYS_close, fd, 0, 0));
}
static int do_sync(int nr, int fd) {
    struct fdi *d = fd >= 0 && fd < 4096 && fds[fd].used ? &fds[fd] : NULL;
    int fk = -1;
    if (on() && d) {
        reschedule(OP_FSYNC, 0);
        struct fault *f = match(OP_FSYNC, T->files[d->file]);
        fk = f ? f->kind : -1;
        side(f);
        if (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN) { logop(OP_FSYNC, d->file, -1, fk, 0); die(2, 137); }
        if (err_of(fk)) { logop(OP_FSYNC, d->file, -err_of(fk), fk, 0); errno = err_of(fk); return -1; }
        /* durability is simulated: the driver decides what survives a power loss */
        logop(OP_FSYNC, d->file, 0, fk, 0);
        if (fk == F_CRASH_AFTER) die(2, 137);
        return 0;
    }
    return (int)ret(RAW(nr, fd, 0, 0));
}
int fsync(int fd) { return do_sync(SYS_fsync, fd); }
int fdatasync(int fd) { return do_sync(SYS_fdatasync, fd); }

static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl) {
    if (!on() || !scratch(o) || !scratch(n)) return (int)ret(raw6(SYS_renameat2, od, (long)o, nd, (long)n, fl, 0));
    reschedule(OP_RENAME, 0);
    uint16_t a = fileid(o), b = fileid(n);
    struct fault *f = match(OP_RENAME, T->files[b]);
    int fk = f ? f->kind : -1;
    side(f);
    if (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN) { logop(OP_RENAME, b, -1, fk, a); die(2, 137); }
    if (err_of(fk)) { logop(OP_RENAME, b, -err_of(fk), fk, a); errno = err_of(fk); return -1; }
    long r = raw6(SYS_renameat2, od, (long)o, nd, (long)n, fl, 0);
    logop(OP_RENAME, b, r, fk, a);
    if (fk == F_CRASH_AFTER) die(2, 137);
    return (int)ret(r);
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { return do_rename(od, o, nd, n, f); }
int unlink(const char *p) {
    if (on() && scratch(p)) {
        reschedule(OP_UNLINK, 0);
        uint16_t a = fileid(p);
        struct fault *f = match(OP_UNLINK, T->files[a]);
        int fk = f ? f->kind : -1;
        side(f);
        if (fk >= F_CRASH_BEFORE && fk <= F_CRASH_TORN) { logop(OP_UNLINK, a, -1, fk, 0); die(2, 137); }
        if (err_of(fk)) { logop(OP_UNLINK, a, -err_of(fk), fk, 0); errno = err_of(fk); return -1; }
        long r = RAW(SYS_unlink, p, 0, 0);
        logop(OP_UNLINK, a, r, fk, 0);
        if (fk == F_CRASH_AFTER) die(2, 137);
        return (int)ret(r);
    }
    return (int)ret(RAW(SYS_unlink, p, 0, 0));
}

/* directories: opening can fail, entries come in any order */
static DIR *(*real_opendir)(const char *);
DIR *opendir(const char *path) {
    if (!real_opendir) real_opendir = dlsym(RTLD_NEXT, "opendir");
    if (!on() || !(scratch(path) || !strcmp(path, cwd))) return real_opendir(path);
    reschedule(OP_OPEN, 0);
    uint16_t id = fileid(".");
    struct fault *f = match(OP_OPEN, ".");
    int fk = f ? f->kind : -1;
    side(f);
    if (f && (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN)) { logop(OP_OPEN, id, -1, fk, 0); die(2, 137); }
    if (f && err_of(fk) && fk != F_EINTR) { logop(OP_OPEN, id, -err_of(fk), fk, 0); errno = err_of(fk); return NULL; }
    DIR *d = real_opendir(path);
    logop(OP_OPEN, id, d ? 0 : -1, fk, 0);
    if (fk == F_CRASH_AFTER) die(2, 137);
    return d;
}
struct dirs { DIR *d; struct dirent64 *e; int n, pos; };
static struct dirs dirs[32];
struct dirent64 *readdir64(DIR *d) {
    if (!on() || !P.shuffledir) return real_readdir64(d);
    struct dirs *s = NULL;
    for (int i = 0; i < 32; i++) if (dirs[i].d == d) s = &dirs[i];
    if (!s) {
        for (int i = 0; i < 32; i++) if (!dirs[i].d) { s = &dirs[i]; break; }
        if (!s) return real_readdir64(d);
        s->d = d; s->n = s->pos = 0; s->e = NULL;
        int cap = 0; struct dirent64 *e;
        while ((e = real_readdir64(d))) {
            if (s->n == cap) { cap = cap ? cap * 2 : 32; s->e = realloc(s->e, sizeof *s->e * (size_t)cap); }
            memcpy(&s->e[s->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        /* the host's order must not leak in: sort, then shuffle with the plan's PRNG */
        for (int i = 1; i < s->n; i++)
            for (int j = i; j > 0 && strcmp(s->e[j - 1].d_name, s->e[j].d_name) > 0; j--) {
                struct dirent64 t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t;
            }
        for (int i = s->n - 1; i > 0; i--) {
            int j = (int)(mix(P.seed ^ 0xd1d1 ^ (uint64_t)i * 77) % (uint64_t)(i + 1));
            struct dirent64 t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
        }
        if (s->n > 1) T->fired[F_DIRSHUFFLE]++;
    }
    if (s->pos < s->n) return &s->e[s->pos++];
    return NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    for (int i = 0; i < 32; i++) if (dirs[i].d == d) { free(dirs[i].e); dirs[i].d = NULL; dirs[i].e = NULL; }
    return real_closedir(d);
}

/* ---------- clock, sleeping, entropy, terminal ---------- */
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!on() || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)
        return (int)ret(RAW(SYS_clock_gettime, id, ts, 0));
    reschedule(OP_CLOCK, 0);
    clk += P.tick;
    uint64_t t = clk;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += 1600000000ull * 1000000000ull + jump_real;
    ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
static void sim_sleep(uint64_t until) {
    self->state = S_SLEEP; self->deadline = until; self->timedout = 0;
    reschedule(OP_SLEEP, 1);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!on()) return (int)ret(RAW(SYS_nanosleep, a, b, 0));
    sim_sleep(clk + (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
    if (!on()) return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0);
    uint64_t t = (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
    sim_sleep(fl & TIMER_ABSTIME ? t : clk + t);
    return 0;
}
int usleep(useconds_t us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; return nanosleep(&t, NULL); }
int sched_yield(void) {
    if (!on()) return (int)ret(RAW(SYS_sched_yield, 0, 0, 0));
    reschedule(OP_YIELD, 1);
    return 0;
}
static void entropy(void *b, size_t n) {
    unsigned char *p = b;
    while (n) {
        uint64_t v = mix(mix(P.entropy ^ (self->estream * 0xa0761d6478bd642full)) + (self->ectr++) * 0xe7037ed1a0b428dbull);
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k); p += k; n -= k;
    }
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!on()) return ret(RAW(SYS_getrandom, b, n, fl));
    entropy(b, n);
    return (ssize_t)n;
}
/* for harnesses linked into the process: independent, thread-placement independent streams */
void dst_stream(uint64_t s) { if (on()) { self->estream = s; self->ectr = 0; } }
void dst_yield(void) { if (on()) reschedule(OP_YIELD, 0); }
int isatty(int fd) {
    if (!on()) { char t[256]; return RAW(SYS_ioctl, fd, TCGETS, t) == 0; }
    if (P.tty && (fd == 1 || fd == 2)) return 1;
    errno = ENOTTY;
    return 0;
}
int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
    if (on() && rq == TIOCGWINSZ && (fd == 1 || fd == 2)) {
        if (!P.tty) { errno = ENOTTY; return -1; }
        struct winsize *w = a; memset(w, 0, sizeof *w); w->ws_col = 80; w->ws_row = 24; return 0;
    }
    return (int)ret(RAW(SYS_ioctl, fd, rq, a));
}

/* ---------- futex and friends ---------- */
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t bits) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        reschedule(OP_FUTEX, 0);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (P.spurious && mix(P.seed ^ 0x5b0u ^ (++spur_ctr << 20)) % 1000 < (uint64_t)P.spurious) {
            T->fired[F_SPURIOUS]++;
            if (spur_ctr & 1) { errno = EINTR; return -1; }
            return 0;
        }
        self->addr = addr; self->bits = cmd == FUTEX_WAIT ? ~0u : bits;
        self->deadline = UINT64_MAX; self->timedout = 0;
        if (to) {
            uint64_t t = (uint64_t)to->tv_sec * 1000000000ull + (uint64_t)to->tv_nsec;
            self->deadline = cmd == FUTEX_WAIT ? clk + t : t;
            if ((op & FUTEX_CLOCK_REALTIME) && cmd == FUTEX_WAIT_BITSET) self->deadline = t - 1600000000ull * 1000000000ull;
        }
        self->state = S_FUTEX;
        reschedule(OP_FUTEX, 1);
        self->addr = NULL;
        if (self->timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    /* WAKE / WAKE_BITSET */
    uint32_t b = cmd == FUTEX_WAKE ? ~0u : bits;
    long n = 0;
    for (;;) {
        int w[MAXT], k = 0;
        for (int i = 0; i < nthr; i++)
            if (thr[i].state == S_FUTEX && thr[i].addr == addr && (thr[i].bits & b)) w[k++] = i;
        if (!k || n >= (long)val) break;
        int c = w[mix(P.seed ^ T->steps * 31 ^ (uint64_t)n) % (uint64_t)k];
        thr[c].state = S_RUN; n++;
    }
    reschedule(OP_WAKE, 0);
    return n;
}
long syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on()) {
        if (nr == SYS_getrandom) { entropy((void *)a, (size_t)b); return b; }
        if (nr == SYS_futex) {
            int cmd = (int)b & FUTEX_CMD_MASK;
            if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET || cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
                return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
        }
        if (nr == SYS_sched_yield) return sched_yield();
        if (nr == SYS_renameat2) return do_rename((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    }
    return ret(raw6(nr, a, b, c, d, e, f));
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!on()) return real_lock ? real_lock(m) : 0;
    for (;;) {
        int r = real_trylock(m);
        if (r != EBUSY) return r;
        reschedule(OP_YIELD, 1);
    }
}

/* ---------- threads ---------- */
static int by_handle(pthread_t h) {
    for (int i = nthr - 1; i >= 0; i--) if (thr[i].state != S_NEW && pthread_equal(thr[i].h, h) && thr[i].h) return i;
    return -1;
}
static void finish(struct thr *me) {
    me->state = S_DONE;
    for (int i = 0; i < nthr; i++) if (thr[i].state == S_JOIN && thr[i].joinon == me->tid) thr[i].state = S_RUN;
    reschedule(OP_EXIT, 1);
    self = NULL;
}
static __thread int dtor_rounds;
static void on_thread_exit(void *v) {
    struct thr *me = v;
    /* run after the thread-local destructors of everybody else */
    if (++dtor_rounds < 3) { pthread_setspecific(key, v); return; }
    if (self == me && active) finish(me);
}
static void *tramp(void *v) {
    struct thr *me = v;
    rawwait(&me->go);
    self = me;
    pthread_setspecific(key, me);
    return me->fn(me->arg);
}
int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!on()) return real_create(h, at, fn, arg);
    reschedule(OP_THREAD, 0);
    struct fault *f = match(OP_THREAD, "thread");
    int fk = f ? f->kind : -1;
    side(f);
    if (fk == F_CRASH_BEFORE || fk == F_CRASH_TORN || fk == F_CRASH_AFTER) die(2, 137);
    if (f && err_of(fk)) return EAGAIN;
    if (nthr >= MAXT) die(5, 96);
    struct thr *t = &thr[nthr];
    memset(t, 0, sizeof *t);
    t->tid = nthr; t->fn = fn; t->arg = arg; t->state = S_NEW; t->estream = (uint64_t)nthr;
    t->prio = (int64_t)(rnd() % 1000000) + 1;
    int r = real_create(&t->h, at, tramp, t);
    if (r) return r;
    *h = t->h;
    nthr++;
    T->nthreads = (uint32_t)nthr;
    t->state = S_RUN;
    reschedule(OP_THREAD, 0);
    return 0;
}
int pthread_join(pthread_t h, void **rv) {
    if (!on()) return real_join(h, rv);
    int t = by_handle(h);
    if (t >= 0) {
        reschedule(OP_JOIN, 0);
        if (thr[t].state != S_DONE) { self->state = S_JOIN; self->joinon = t; reschedule(OP_JOIN, 1); }
        thr[t].h = 0;
    }
    return real_join(h, rv);
}
int pthread_detach(pthread_t h) {
    if (on()) { int t = by_handle(h); if (t >= 0) { thr[t].detached = 1; thr[t].h = 0; } }
    return real_detach(h);
}

/* ---------- start-up ---------- */
static int kind_of(const char *s) {
    static const char *n[] = { "crash-before", "crash-torn", "crash-after", "enospc", "eio", "eintr", "short", "emfile", "eacces", "eagain", "stall", "clockjump" };
    for (int i = 0; i < 12; i++) if (!strcmp(s, n[i])) return i;
    return -1;
}
static int class_of(const char *s) {
    static const char *n[] = { "open", "write", "read", "fsync", "rename", "unlink", "thread", "close" };
    for (int i = 0; i < 8; i++) if (!strcmp(s, n[i])) return i;
    return NOPS;
}
static void bad(const char *l) { dprintf(2, "libdst: bad plan line: %s\n", l); RAW(SYS_exit_group, 95, 0, 0); }
__attribute__((constructor)) static void init(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    real_detach = dlsym(RTLD_NEXT, "pthread_detach");
    real_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    real_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    real_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
    real_closedir = dlsym(RTLD_NEXT, "closedir");
    T = &dummy_trace;
    const char *plan = getenv("DST_PLAN"), *tr = getenv("DST_TRACE");
    if (!plan) return;
    P.maxsteps = 1000000; P.tick = 1000; P.policy = P_SEQ;
    FILE *fp = fopen(plan, "r");
    if (!fp) { dprintf(2, "libdst: cannot read plan %s\n", plan); RAW(SYS_exit_group, 95, 0, 0); }
    char line[512]; int cap = 0;
    while (fgets(line, sizeof line, fp)) {
        char a[64] = "", b[64] = "", c[64] = "", d[64] = ""; unsigned long long x = 0, y = 0, z = 0; int st = 0;
        line[strcspn(line, "\n")] = 0;
        if (!line[0] || line[0] == '#') continue;
        if (sscanf(line, "seed %llu", &x) == 1) P.seed = x;
        else if (sscanf(line, "entropy %llu", &x) == 1) P.entropy = x;
        else if (sscanf(line, "maxsteps %llu", &x) == 1) P.maxsteps = x;
        else if (sscanf(line, "tick %llu", &x) == 1) P.tick = x;
        else if (sscanf(line, "tty %llu", &x) == 1) P.tty = (int)x;
        else if (sscanf(line, "spurious %llu", &x) == 1) P.spurious = (int)x;
        else if (sscanf(line, "shuffledir %llu", &x) == 1) P.shuffledir = (int)x;
        else if (sscanf(line, "dev %llu %llu", &x, &y) == 2) {
            if (P.ndev == cap) { cap = cap ? cap * 2 : 256; P.dev = realloc(P.dev, sizeof *P.dev * (size_t)cap); }
            P.dev[P.ndev].step = (uint32_t)x; P.dev[P.ndev++].tid = (uint32_t)y;
        } else if (sscanf(line, "policy %63s %llu %llu", a, &x, &y) >= 1) {
            if (!strcmp(a, "seq")) P.policy = P_SEQ;
            else if (!strcmp(a, "rw")) P.policy = P_RW;
            else if (!strcmp(a, "pct")) P.policy = P_PCT;
            else if (!strcmp(a, "starve")) P.policy = P_STARVE;
            else if (!strcmp(a, "replay")) P.policy = P_REPLAY;
            else bad(line);
            P.p1 = x; P.p2 = y;
        } else if (sscanf(line, "fault %63s %63s %63s %llu %d %llu", b, c, d, &x, &st, &z) == 6) {
            if (P.nfault >= MAXFAULT) bad(line);
            struct fault *f = &P.f[P.nfault++];
            f->kind = kind_of(b); f->cls = class_of(c); strcpy(f->prefix, d);
            f->nth = (uint32_t)x; f->sticky = st; f->arg = z;
            if (f->kind < 0) bad(line);
        } else bad(line);
    }
    fclose(fp);
    if (tr) {
        int fd = (int)RAW(SYS_open, tr, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (fd < 0 || RAW(SYS_ftruncate, fd, sizeof(struct trace), 0) < 0) { dprintf(2, "libdst: trace\n"); RAW(SYS_exit_group, 95, 0, 0); }
        long m = raw6(SYS_mmap, 0, sizeof(struct trace), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m < 0 && m > -4096) { dprintf(2, "libdst: mmap\n"); RAW(SYS_exit_group, 95, 0, 0); }
        T = (struct trace *)m;
        RAW(SYS_close, fd, 0, 0);
    }
    T->magic = 0x4453543031ull; T->hash = 0xcbf29ce484222325ull;
    if (getcwd(cwd, sizeof cwd)) cwdlen = strlen(cwd);
    rng_state = mix(P.seed ^ 0x5eedull);
    if (P.policy == P_PCT) {
        npct = P.p1 > 64 ? 64 : (int)P.p1;
        for (int i = 0; i < npct; i++) pctpts[i] = P.p2 ? rnd() % P.p2 : 0;
    }
    pthread_key_create(&key, on_thread_exit);
    thr[0].tid = 0; thr[0].state = S_RUN; thr[0].h = pthread_self(); thr[0].prio = (int64_t)(rnd() % 1000000) + 1;
    nthr = 1; T->nthreads = 1;
    self = &thr[0];
    active = 1;
}
__attribute__((destructor)) static void fini(void) {
    if (!active) return;
    T->clock_ns = clk;
    if (T->status == 0) T->status = 1;
}
