/*
 * libsim: the simulated world of one process.
 *
 * Preloaded into the seam command (or the library probe), it stands in for the
 * C library at every point where the process meets the outside world: files,
 * directories, standard streams, clock, random numbers, memory, threads.
 * Everything it does is a function of the scenario file ($SIM_SCN) alone, and
 * everything the process does is recorded in the event log ($SIM_LOG).
 *
 * A seccomp filter denies (and records) any system call that would escape, so
 * nothing the code under test does reaches the real machine.
 */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <limits.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/sysmacros.h>
#include <sys/random.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <ucontext.h>

#define EXPORT __attribute__((visibility("default")))

/* ------------------------------------------------------------------ raw -- */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c),
                     "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
#define raw(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)

static void die(int code) { for (;;) raw(SYS_exit_group, code, 0, 0); }
/* The process vanishes: nothing is flushed, no destructor runs. */
static void sigkill_self(void) { die(99); }

/* ------------------------------------------------------------------ log -- */

struct loghdr {
    uint64_t magic, len, cap, ops, allocs, alloc_bytes, frees, live_bytes;
    uint64_t switches, flags, leaked_fds, threads;
};
enum { LF_OVERFLOW = 1, LF_HEAP = 2, LF_DEADLOCK = 4, LF_SECCOMP = 8, LF_EXITED = 16, LF_BUDGET = 32 };

static struct loghdr *lg;
static char *logbuf;
static volatile int active; /* the simulation governs this process */

static int sim_pid = 4000;
static uint64_t op_budget = 2000000, kill_op, kill_alloc, alloc_fail, alloc_fail_count;

static void log_raw(const char *p, size_t n) {
    if (!lg) return;
    if (lg->len + n > lg->cap) { lg->flags |= LF_OVERFLOW; die(97); }
    memcpy(logbuf + lg->len, p, n);
    lg->len += n;
}
static void log_str(const char *s) { log_raw(s, strlen(s)); }
static void log_num(long long v) {
    char b[24]; int i = 24, neg = v < 0; unsigned long long u = neg ? -(unsigned long long)v : (unsigned long long)v;
    do { b[--i] = '0' + u % 10; u /= 10; } while (u);
    if (neg) b[--i] = '-';
    log_raw(b + i, 24 - i);
}
static void log_esc(const char *p, size_t n) {
    static const char hex[] = "0123456789ABCDEF";
    log_raw("=", 1);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = p[i];
        if (c > 32 && c < 127 && c != '%') log_raw((char *)&c, 1);
        else { char e[3] = { '%', hex[c >> 4], hex[c & 15] }; log_raw(e, 3); }
    }
}
static void log_path(const char *p) { log_esc(p, strlen(p)); }

static int my_tid(void);
/* Begin an event line: "<op> <thread>". */
static void ev(const char *op) {
    lg->ops++;
    log_str(op); log_raw(" ", 1); log_num(my_tid());
}
static void ev_s(const char *s) { log_raw(" ", 1); log_path(s); }
static void ev_n(long long n) { log_raw(" ", 1); log_num(n); }
static void ev_end(void) {
    log_raw("\n", 1);
    if (kill_op && lg->ops >= kill_op) { log_str("KILL 0 op\n"); sigkill_self(); }
    if (lg->ops > op_budget) { lg->flags |= LF_BUDGET; log_str("BUDGET 0\n"); die(98); }
}

/* ---------------------------------------------------------------- arena -- */
/* Private memory of the simulator itself. */

static char *sarena, *sarena_end;
static void *salloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (!sarena || sarena + n > sarena_end) {
        size_t chunk = n > (1 << 20) ? n : (1 << 20);
        sarena = (char *)raw6(SYS_mmap, 0, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if ((unsigned long)sarena > -4096UL) die(96);
        sarena_end = sarena + chunk;
    }
    void *p = sarena; sarena += n; return p;
}
static char *sdup(const char *s, size_t n) { char *p = salloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

/* ----------------------------------------------------------------- heap -- */
/*
 * A heap whose placement and reuse are decided by the scenario:
 *   mode 0: segregated free lists, last freed first reused, contents kept
 *   mode 1: never reuse, poison on allocation and on release, verified at exit
 *   mode 2: seeded gaps and a seeded choice among freed blocks, poisoned
 *   mode 3: first freed first reused, contents overwritten on release
 */
#define HMAGIC 0x51A7ED00u
#define HFREED 0xF4EEF4EEu
#define HEAP_BASE ((char *)0x200000000000)
#define HEAP_SIZE (2ULL << 30)

struct hhdr { uint32_t magic, cls; uint64_t size; struct hhdr *next; uint64_t off; };
/* 32 bytes; user memory follows, then an 8-byte red zone. */

static int heap_mode, heap_poison;
static uint64_t heap_rng = 88172645463325252ULL;
static char *heap_cur, *heap_end;
static struct hhdr *hfree[64], *hfree_tail[64];
static uint32_t hfree_n[64];
static volatile int heap_lock_v;
static void token_check_enter(void);

static uint64_t hrand(void) {
    heap_rng ^= heap_rng << 13; heap_rng ^= heap_rng >> 7; heap_rng ^= heap_rng << 17; return heap_rng;
}
static void heap_lock(void) { while (__atomic_exchange_n(&heap_lock_v, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield, 0, 0, 0); }
static void heap_unlock(void) { __atomic_store_n(&heap_lock_v, 0, __ATOMIC_RELEASE); }

static void heap_init(void) {
    if (heap_cur) return;
    long p = raw6(SYS_mmap, (long)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((unsigned long)p > -4096UL) die(95);
    heap_cur = (char *)p; heap_end = heap_cur + HEAP_SIZE;
}
static void heap_error(const char *what) {
    if (lg) { lg->flags |= LF_HEAP; log_str("HEAP 0 "); log_str(what); log_raw("\n", 1); }
    die(94);
}
/* Size classes: 16-byte steps up to 512, then powers of two (fractional). */
static uint32_t size_class(uint64_t n, uint64_t *cap) {
    if (n <= 512) { uint32_t c = (n + 31) / 32; if (!c) c = 1; *cap = c * 32ull; return c; } /* 1..16 */
    uint32_t c = 17; uint64_t k = 1024;
    while (k < n) { k <<= 1; c++; }
    *cap = k; return c;
}
static void redzone(struct hhdr *h) { uint64_t z = 0xDEADFA11C0DEull ^ h->size; memcpy((char *)(h + 1) + h->size, &z, 8); }
static int redzone_ok(struct hhdr *h) { uint64_t z; memcpy(&z, (char *)(h + 1) + h->size, 8); return z == (0xDEADFA11C0DEull ^ h->size); }

static void *heap_alloc(size_t n, size_t align, int zero) {
    token_check_enter();
    heap_lock();
    heap_init();
    if (lg && active) {
        lg->allocs++; lg->alloc_bytes += n;
        if (kill_alloc && lg->allocs == kill_alloc) { log_str("KILL 0 alloc\n"); sigkill_self(); }
        if (alloc_fail && lg->allocs >= alloc_fail && lg->allocs < alloc_fail + alloc_fail_count) {
            log_str("NOMEM 0 "); log_num(n); log_raw("\n", 1);
            heap_unlock(); errno = ENOMEM; return NULL;
        }
        if (lg->allocs > 40 * op_budget) { lg->flags |= LF_BUDGET; log_str("BUDGET 0\n"); die(98); }
    }
    uint64_t cap; uint32_t cls = size_class(n + 8, &cap);
    struct hhdr *h = NULL;
    if (heap_mode != 1 && align <= 16 && hfree[cls]) {
        if (heap_mode == 0 || heap_mode == 3) {
            h = hfree[cls]; hfree[cls] = h->next;
        } else if (hrand() % 4) {
            uint32_t k = hrand() % (hfree_n[cls] > 128 ? 128 : hfree_n[cls]); struct hhdr **pp = &hfree[cls];
            while (k--) pp = &(*pp)->next;
            h = *pp; *pp = h->next;
        }
        if (h) { hfree_n[cls]--; if (h->magic != HFREED) { heap_unlock(); heap_error("free list corrupted (write after free)"); } }
    }
    if (!h) {
        uint64_t gap = heap_mode == 2 ? (hrand() % 5) * 48 : 0;
        char *p = heap_cur + gap;
        uintptr_t user = (uintptr_t)p + sizeof(struct hhdr);
        if (align < 16) align = 16;
        user = (user + align - 1) & ~(uintptr_t)(align - 1);
        if (n > HEAP_SIZE || (char *)user + cap > heap_end) { heap_unlock(); errno = ENOMEM; return NULL; }
        heap_cur = (char *)user + cap;
        h = (struct hhdr *)(user - sizeof(struct hhdr));
        h->off = 0;
        if (zero && heap_mode != 2) zero = 2; /* fresh pages are zero already */
    }
    h->magic = HMAGIC; h->cls = cls; h->size = n; h->next = NULL;
    redzone(h);
    if (lg) lg->live_bytes += n;
    heap_unlock();
    void *u = h + 1;
    if (zero == 1) memset(u, 0, n);
    else if (!zero && heap_poison) memset(u, heap_poison, n > 65536 ? 65536 : n);
    return u;
}
static void heap_free(void *p) {
    if (!p) return;
    if ((char *)p < HEAP_BASE || (char *)p >= HEAP_BASE + HEAP_SIZE) return; /* from before us */
    struct hhdr *h = (struct hhdr *)p - 1;
    token_check_enter();
    heap_lock();
    if (h->magic == HFREED) { heap_unlock(); heap_error("block released twice"); }
    if (h->magic != HMAGIC) { heap_unlock(); heap_error("release of a bad pointer"); }
    if (!redzone_ok(h)) { heap_unlock(); heap_error("write past the end of a block"); }
    h->magic = HFREED;
    if (lg) { lg->frees++; lg->live_bytes -= h->size; }
    if (heap_poison) memset(p, heap_poison ^ 0x21, h->size > 1048576 ? 1048576 : h->size);
    if (heap_mode == 1) { /* keep for verification */
        h->next = hfree[0]; hfree[0] = h;
    } else if (heap_mode == 3) {
        h->next = NULL;
        if (hfree[h->cls]) hfree_tail[h->cls]->next = h; else hfree[h->cls] = h;
        hfree_tail[h->cls] = h; hfree_n[h->cls]++;
    } else {
        h->next = hfree[h->cls]; hfree[h->cls] = h; hfree_n[h->cls]++;
    }
    heap_unlock();
}
static void heap_verify(void) {
    if (heap_mode != 1 || !heap_poison) return;
    for (struct hhdr *h = hfree[0]; h; h = h->next) {
        if (h->magic != HFREED) heap_error("header overwritten after release");
        uint64_t n = h->size > 1048576 ? 1048576 : h->size;
        for (uint64_t i = 0; i < n; i++)
            if (((unsigned char *)(h + 1))[i] != (unsigned char)(heap_poison ^ 0x21)) heap_error("write to a released block");
    }
}
EXPORT void *malloc(size_t n) { return heap_alloc(n, 16, 0); }
EXPORT void free(void *p) { int e = errno; heap_free(p); errno = e; }
EXPORT void *calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return heap_alloc(n, 16, 1);
}
EXPORT void *realloc(void *p, size_t n) {
    if (!p) return heap_alloc(n, 16, 0);
    if (!n) { heap_free(p); return NULL; }
    struct hhdr *h = (struct hhdr *)p - 1;
    if (h->magic != HMAGIC) heap_error("realloc of a bad pointer");
    if (heap_mode == 0) { /* grow in place when the class has room */
        uint64_t cap; uint32_t cls = size_class(n + 8, &cap);
        if (cls == h->cls) {
            heap_lock();
            if (!redzone_ok(h)) { heap_unlock(); heap_error("write past the end of a block"); }
            if (lg) { lg->live_bytes += n; lg->live_bytes -= h->size; }
            h->size = n; redzone(h); heap_unlock(); return p;
        }
    }
    void *q = heap_alloc(n, 16, 0);
    if (!q) return NULL;
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p);
    return q;
}
EXPORT int posix_memalign(void **out, size_t align, size_t n) {
    void *p = heap_alloc(n, align, 0); if (!p) return ENOMEM; *out = p; return 0;
}
EXPORT void *aligned_alloc(size_t align, size_t n) { return heap_alloc(n, align, 0); }
EXPORT void *memalign(size_t align, size_t n) { return heap_alloc(n, align, 0); }
EXPORT size_t malloc_usable_size(void *p) { return p ? ((struct hhdr *)p - 1)->size : 0; }

/* -------------------------------------------------------------- threads -- */
/*
 * Threads run one at a time. The running thread holds the token; at every
 * simulated call (and memory allocation) the scheduler may pass it on.
 */
enum { TS_RUN, TS_FUTEX, TS_JOIN, TS_DONE };
struct thr { int used, state, turn; uint32_t *faddr; int timed, woken, join_on; void *(*fn)(void *); void *arg; pthread_t pt; };
#define MAXT 32
static struct thr thr[MAXT];
static int nthr = 1, current = 0, threads_on;
static __thread int tls_tid, tls_dead;
static uint64_t sched_rng = 1;
static int sched_period = 20; /* switch about once in this many points */
static pthread_key_t tkey; static int tkey_ok;

static int my_tid(void) { return threads_on ? tls_tid : 0; }
static uint64_t srand_(void) { sched_rng ^= sched_rng << 13; sched_rng ^= sched_rng >> 7; sched_rng ^= sched_rng << 17; return sched_rng; }

static void turn_wait(int me) {
    while (!__atomic_load_n(&thr[me].turn, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&thr[me].turn, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void give(int to) {
    current = to;
    __atomic_store_n(&thr[to].turn, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, &thr[to].turn, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static int runnable(int i) {
    if (!thr[i].used) return 0;
    switch (thr[i].state) {
    case TS_RUN: return 1;
    case TS_JOIN: return thr[thr[i].join_on].state == TS_DONE;
    default: return 0;
    }
}
static int pick(int notme) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) if (i != notme && runnable(i)) c[n++] = i;
    if (n) return c[srand_() % n];
    for (int i = 0; i < nthr; i++) if (i != notme && thr[i].used && thr[i].state == TS_FUTEX && thr[i].timed) { thr[i].state = TS_RUN; thr[i].woken = 2; return i; }
    return -1;
}
/* Hand the token to another thread; returns when this one has it again. */
static void switch_from(int me, int must) {
    int to = pick(must ? -1 : me);
    if (must && to == me) { return; }
    if (to < 0) {
        if (!must) return;
        lg->flags |= LF_DEADLOCK; log_str("DEADLOCK 0\n"); die(93);
    }
    lg->switches++;
    log_str("Y "); log_num(me); log_raw(" ", 1); log_num(to); log_raw("\n", 1);
    thr[me].turn = 0;
    give(to);
    turn_wait(me);
}
static void sched_point(void) {
    if (!threads_on || tls_dead) return;
    if (srand_() % sched_period == 0) switch_from(tls_tid, 0);
}
static void token_check_enter(void) { if (threads_on && !tls_dead && active) sched_point(); }

static void thread_key_dtor(void *v) {
    intptr_t n = (intptr_t)v;
    if (n < 3) { pthread_setspecific(tkey, (void *)(n + 1)); return; }
    int me = tls_tid;
    thr[me].state = TS_DONE;
    tls_dead = 1;
    log_str("TEND "); log_num(me); log_raw("\n", 1);
    int to = pick(me);
    if (to < 0) { lg->flags |= LF_DEADLOCK; log_str("DEADLOCK 0\n"); die(93); }
    give(to);
}
static void *thread_start(void *v) {
    struct thr *t = v;
    tls_tid = t - thr;
    turn_wait(tls_tid);
    pthread_setspecific(tkey, (void *)1);
    return t->fn(t->arg);
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*pj_t)(pthread_t, void **);
static pc_t real_pc; static pj_t real_pj;
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!real_pc) real_pc = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    if (!active) return real_pc(out, attr, fn, arg);
    if (!tkey_ok) { pthread_key_create(&tkey, thread_key_dtor); tkey_ok = 1; }
    if (nthr >= MAXT) return EAGAIN;
    if (!threads_on) { threads_on = 1; tls_tid = 0; thr[0].used = 1; thr[0].turn = 1; }
    int id = nthr++;
    lg->threads++;
    thr[id].fn = fn; thr[id].arg = arg; thr[id].state = TS_RUN; thr[id].turn = 0;
    int dead = tls_dead; tls_dead = 1; /* no switching inside the real call */
    int r = real_pc(&thr[id].pt, attr, thread_start, &thr[id]);
    tls_dead = dead;
    if (r) { thr[id].state = TS_DONE; return r; }
    thr[id].used = 1;
    *out = thr[id].pt;
    ev("TNEW"); ev_n(id); ev_end();
    sched_point();
    return 0;
}
EXPORT int pthread_join(pthread_t pt, void **ret) {
    if (!real_pj) real_pj = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
    if (active && threads_on && !tls_dead) {
        int id = -1;
        for (int i = 1; i < nthr; i++) if (thr[i].used && pthread_equal(thr[i].pt, pt)) id = i;
        if (id > 0) {
            if (thr[id].state != TS_DONE) { thr[tls_tid].state = TS_JOIN; thr[tls_tid].join_on = id; switch_from(tls_tid, 1); thr[tls_tid].state = TS_RUN; }
            int r = real_pj(pt, ret);
            thr[id].used = 0;
            return r;
        }
    }
    return real_pj(pt, ret);
}
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2, uint32_t val3) {
    int cmd = op & FUTEX_CMD_MASK;
    (void)addr2; (void)val3;
    if (!threads_on) {
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            if (*addr != val) return -EAGAIN;
            if (ts) return -ETIMEDOUT;
            lg->flags |= LF_DEADLOCK; log_str("DEADLOCK 0\n"); die(93);
        }
        return 0;
    }
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        sched_point();
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        struct thr *t = &thr[tls_tid];
        t->state = TS_FUTEX; t->faddr = addr; t->timed = ts != NULL; t->woken = 0;
        switch_from(tls_tid, 1);
        t->state = TS_RUN;
        return t->woken == 2 ? -ETIMEDOUT : 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = 0, order[MAXT], k = 0;
        for (int i = 0; i < nthr; i++) if (thr[i].used && thr[i].state == TS_FUTEX && thr[i].faddr == addr) order[k++] = i;
        while (k && n < (int)val) { int j = srand_() % k; thr[order[j]].state = TS_RUN; thr[order[j]].woken = 1; order[j] = order[--k]; n++; }
        sched_point();
        return n;
    }
    return 0;
}
EXPORT int sched_yield(void) { if (active && threads_on) switch_from(tls_tid, 0); return 0; }

/* ------------------------------------------------------------------ VFS -- */

enum { N_FILE, N_DIR, N_LINK, N_SOCK };
struct inode { int kind; char *data; size_t len; int64_t mtime, btime; uint64_t ino; int64_t fake_size; };
struct node { char *path; struct inode *in; int alive; uint32_t ord; };
#define MAXN 4096
static struct node nodes[MAXN]; static int nnodes;
static uint64_t next_ino = 100;
static char cwd_[PATH_MAX] = "/";
static int has_btime = 1, dt_unknown, fdlimit = 1 << 20;
static uint64_t rd_seed;

static struct node *node_at(const char *path) {
    for (int i = 0; i < nnodes; i++) if (nodes[i].alive && !strcmp(nodes[i].path, path)) return &nodes[i];
    return NULL;
}
static struct node *node_put(const char *path, int kind) {
    struct node *n = node_at(path);
    if (!n) { if (nnodes >= MAXN) die(92); n = &nodes[nnodes++]; n->path = sdup(path, strlen(path)); n->alive = 1; n->ord = nnodes; }
    struct inode *in = salloc(sizeof *in); memset(in, 0, sizeof *in);
    in->kind = kind; in->ino = next_ino++; in->fake_size = -1;
    if (n->in) { in->mtime = n->in->mtime; in->btime = n->in->btime; }
    n->in = in; return n;
}
static void mkparents(const char *path) {
    char b[PATH_MAX];
    for (const char *s = path + 1; (s = strchr(s, '/')); s++) {
        memcpy(b, path, s - path); b[s - path] = 0;
        if (!node_at(b)) node_put(b, N_DIR);
    }
}
/* Resolve a path to a node; 0 or -errno. `out` receives the canonical path. */
static int resolve(const char *path, int follow, struct node **res, char *out) {
    char work[PATH_MAX], cur[PATH_MAX]; int links = 0;
    if (!*path) return -ENOENT;
    if (strlen(path) + strlen(cwd_) + 2 >= PATH_MAX) return -ENAMETOOLONG;
    if (*path == '/') strcpy(work, path); else { strcpy(work, cwd_); strcat(work, "/"); strcat(work, path); }
restart:
    cur[0] = 0;
    char *s = work; struct node *n = NULL;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = strchr(s, '/'); size_t l = e ? (size_t)(e - s) : strlen(s);
        if (l > 255) return -ENAMETOOLONG;
        if (cur[0] && n && n->in->kind != N_DIR) return -ENOTDIR;
        if (l == 1 && s[0] == '.') { s += l; continue; }
        if (l == 2 && s[0] == '.' && s[1] == '.') {
            char *q = strrchr(cur, '/'); if (q) *q = 0;
            n = cur[0] ? node_at(cur) : NULL; s += l; continue;
        }
        size_t cl = strlen(cur);
        if (cl + l + 2 >= PATH_MAX) return -ENAMETOOLONG;
        cur[cl] = '/'; memcpy(cur + cl + 1, s, l); cur[cl + 1 + l] = 0;
        n = node_at(cur);
        if (!n) { if (out) { strcpy(out, cur); if (s[l]) strncat(out, s + l, PATH_MAX - strlen(out) - 1); } return -ENOENT; }
        s += l;
        int last = 1; for (char *t = s; *t; t++) if (*t != '/') last = 0;
        if (n->in->kind == N_LINK && (!last || follow || *s == '/')) {
            if (++links > 20) return -ELOOP;
            char nw[PATH_MAX * 2]; nw[0] = 0;
            if (n->in->data[0] != '/') { strcpy(nw, cur); char *q = strrchr(nw, '/'); q[1] = 0; }
            strcat(nw, n->in->data); strcat(nw, s);
            if (strlen(nw) >= PATH_MAX) return -ENAMETOOLONG;
            strcpy(work, nw); goto restart;
        }
    }
    size_t wl = strlen(work);
    if (wl && work[wl - 1] == '/' && n && n->in->kind != N_DIR) return -ENOTDIR;
    if (out) strcpy(out, cur[0] ? cur : "/");
    if (res) *res = cur[0] ? n : node_at("/");
    return 0;
}

/* --------------------------------------------------------------- faults -- */

struct rule { char op[12]; char *path; int nth, count, err, hits; };
#define MAXR 256
static struct rule rules[MAXR]; static int nrules;

/* Next fault for this call, or 0. The path "*" stands for any. */
static int fault(const char *op, const char *path) {
    int err = 0, which = -1;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (strcmp(r->op, op) || (strcmp(r->path, "*") && strcmp(r->path, path))) continue;
        r->hits++;
        if (!err && r->hits >= r->nth && (r->count < 0 || r->hits < r->nth + r->count)) { err = r->err; which = i; }
    }
    if (err) { log_str("F "); log_num(my_tid()); ev_n(which); log_raw(" ", 1); log_str(op); ev_s(path); ev_n(err); log_raw("\n", 1); }
    return err;
}

struct mut { char op[12]; char *path; int nth, hits, done; char act[8]; char *target, *data; size_t len; long long num; };
#define MAXM 64
static struct mut muts[MAXM]; static int nmuts;
static long long clk_real, clk_mono, clk_tick;
struct cjump { long long k, to; }; static struct cjump cjumps[64]; static int ncjumps; static long long clk_reads;

static void mutate(const char *op, const char *path) {
    for (int i = 0; i < nmuts; i++) {
        struct mut *m = &muts[i];
        if (m->done || strcmp(m->op, op) || (strcmp(m->path, "*") && strcmp(m->path, path))) continue;
        if (++m->hits < m->nth) continue;
        m->done = 1;
        if (!strcmp(m->act, "set")) { mkparents(m->target); struct node *n = node_put(m->target, N_FILE); n->in->data = m->data; n->in->len = m->len; }
        else if (!strcmp(m->act, "write")) { struct node *n = node_at(m->target); if (n && n->in->kind == N_FILE) { n->in->data = m->data; n->in->len = m->len; } }
        else if (!strcmp(m->act, "del")) {
            size_t l = strlen(m->target);
            for (int k = 0; k < nnodes; k++)
                if (nodes[k].alive && !strncmp(nodes[k].path, m->target, l) && (nodes[k].path[l] == 0 || nodes[k].path[l] == '/')) nodes[k].alive = 0;
        }
        else if (!strcmp(m->act, "clock")) clk_real = m->num;
        else if (!strcmp(m->act, "mtime")) { struct node *n = node_at(m->target); if (n) n->in->mtime = m->num; }
        log_str("MUT "); log_num(my_tid()); ev_n(i); log_raw("\n", 1);
    }
}

/* ------------------------------------------------------------------ fds -- */

enum { F_FREE, F_FILE, F_DIR, F_STDIN, F_OUT };
struct vfd { int kind; struct inode *in; size_t pos; char path[512]; int ci; };
#define MAXFD 1200
static struct vfd fds[MAXFD]; static int nopen;
static struct inode stdin_inode;

struct chunk { char *path; int *sizes, n; };
static struct chunk chunks[64]; static int nchunks;
static int *wlim[3], nwlim[3], wpos[3];

static int new_fd(int kind) {
    if (nopen >= fdlimit) return -EMFILE;
    for (int i = 3; i < MAXFD; i++) if (fds[i].kind == F_FREE) { memset(&fds[i], 0, sizeof fds[i]); fds[i].kind = kind; nopen++; return i; }
    return -EMFILE;
}
static size_t chunk_limit(struct vfd *v, size_t want) {
    for (int i = 0; i < nchunks; i++)
        if (!strcmp(chunks[i].path, "*") || !strcmp(chunks[i].path, v->path)) {
            int s = chunks[i].sizes[v->ci++ % chunks[i].n];
            return s > 0 && (size_t)s < want ? (size_t)s : want;
        }
    return want;
}
static int ret_err(long e) { errno = (int)-e; return -1; }

static void effect(const char *what, const char *path) {
    ev("EFFECT"); log_raw(" ", 1); log_str(what); ev_s(path ? path : ""); ev_end();
}

static int sim_open(const char *path, int flags) {
    sched_point();
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND))) { effect("open-write", path); return ret_err(-EACCES); }
    char canon[PATH_MAX]; struct node *n = NULL; canon[0] = 0;
    int r = resolve(path, !(flags & O_NOFOLLOW), &n, canon);
    if (!canon[0]) strncpy(canon, path, PATH_MAX - 1);
    if (!r) r = -fault("open", canon);
    if (!r && n->in->kind == N_LINK) r = -ELOOP;
    if (!r && n->in->kind == N_SOCK) r = -ENXIO;
    if (!r && (flags & O_DIRECTORY) && n->in->kind != N_DIR) r = -ENOTDIR;
    int fd = r;
    if (!r) {
        fd = new_fd(F_FILE);
        if (fd >= 0) { fds[fd].in = n->in; strncpy(fds[fd].path, canon, sizeof fds[fd].path - 1); }
    }
    ev("O"); ev_s(path); ev_s(canon); ev_n(fd); ev_end();
    if (fd >= 0) mutate("open", canon);
    mutate("tryopen", canon);
    return fd < 0 ? ret_err(fd) : fd;
}
static struct vfd *vf(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].kind != F_FREE ? &fds[fd] : NULL; }

static ssize_t sim_read(int fd, const struct iovec *iov, int cnt) {
    sched_point();
    struct vfd *v = vf(fd);
    if (!v || v->kind == F_OUT) return ret_err(-EBADF);
    size_t want = 0; for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
    int e = fault("read", v->path);
    if (!e && v->in->kind == N_DIR) e = EISDIR;
    if (e) { ev("R"); ev_s(v->path); ev_n(want); ev_n(-e); ev_end(); return ret_err(-e); }
    size_t avail = v->pos < v->in->len ? v->in->len - v->pos : 0;
    size_t n = want; if (n > avail) n = avail;
    if (n) n = chunk_limit(v, n);
    size_t left = n;
    for (int i = 0; i < cnt && left; i++) {
        size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
        memcpy(iov[i].iov_base, v->in->data + v->pos, k); v->pos += k; left -= k;
    }
    ev("R"); ev_s(v->path); ev_n(want); ev_n(n); ev_end();
    mutate("read", v->path);
    return n;
}
static ssize_t sim_write(int fd, const struct iovec *iov, int cnt) {
    sched_point();
    struct vfd *v = vf(fd);
    if (!v) { return ret_err(-EBADF); }
    if (v->kind != F_OUT) { effect("write", v->path); return ret_err(-EBADF); }
    int e = fault("write", v->path);
    if (e) { ev("w"); ev_n(fd); ev_n(e); ev_end(); return ret_err(-e); }
    size_t total = 0; for (int i = 0; i < cnt; i++) total += iov[i].iov_len;
    size_t n = total;
    if (fd < 3 && nwlim[fd] && total) {
        int s = wlim[fd][wpos[fd]++ % nwlim[fd]];
        if (s > 0 && (size_t)s < n) n = s;
    }
    if (fd == 1) { log_str("A 0"); ev_n(lg->allocs); log_raw("\n", 1); }
    ev("W"); ev_n(fd); ev_n(total); log_raw(" ", 1);
    { /* payload */
        static const char hex[] = "0123456789ABCDEF";
        log_raw("=", 1);
        size_t left = n;
        for (int i = 0; i < cnt && left; i++)
            for (size_t k = 0; k < iov[i].iov_len && left; k++, left--) {
                unsigned char c = ((unsigned char *)iov[i].iov_base)[k];
                if (c > 32 && c < 127 && c != '%') log_raw((char *)&c, 1);
                else { char x[3] = { '%', hex[c >> 4], hex[c & 15] }; log_raw(x, 3); }
            }
    }
    ev_end();
    mutate("write", v->path);
    return n;
}
static int sim_close(int fd) {
    sched_point();
    struct vfd *v = vf(fd);
    if (!v) { if (fd > 2) { ev("EBADCLOSE"); ev_n(fd); ev_end(); } return ret_err(-EBADF); }
    char path[512]; strcpy(path, v->path);
    int e = fault("close", path);
    if (v->kind == F_OUT || v->kind == F_STDIN) { ev("CSTD"); ev_n(fd); ev_end(); v->kind = F_FREE; return 0; }
    v->kind = F_FREE; nopen--;
    ev("C"); ev_s(path); ev_n(fd); ev_n(-e); ev_end();
    mutate("close", path);
    return e ? ret_err(-e) : 0;
}
/* Seconds and nanoseconds; before 1970 too the nanoseconds count forward. */
static void split_ns(long long t, time_t *s, long *n) {
    *s = t / 1000000000; *n = t % 1000000000;
    if (*n < 0) { *n += 1000000000; --*s; }
}
static int64_t isize(struct inode *in) { return in->fake_size >= 0 ? in->fake_size : in->kind == N_DIR ? 4096 : (int64_t)in->len; }
static unsigned imode(struct inode *in) {
    return in == &stdin_inode ? S_IFIFO | 0600 : in->kind == N_DIR ? S_IFDIR | 0755 : in->kind == N_LINK ? S_IFLNK | 0777 : in->kind == N_SOCK ? S_IFSOCK | 0755 : S_IFREG | 0644;
}
static void fill_stat(struct stat *st, struct inode *in) {
    memset(st, 0, sizeof *st);
    st->st_mode = imode(in); st->st_size = isize(in); st->st_ino = in->ino; st->st_nlink = 1; st->st_dev = 1; st->st_blksize = 4096;
    split_ns(in->mtime, &st->st_mtim.tv_sec, &st->st_mtim.tv_nsec);
    st->st_ctim.tv_sec = st->st_atim.tv_sec = 1600000000;
}
static void fill_statx(struct statx *sx, struct inode *in) {
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS | (has_btime ? STATX_BTIME : 0);
    sx->stx_mode = imode(in); sx->stx_size = isize(in); sx->stx_ino = in->ino; sx->stx_nlink = 1; sx->stx_blksize = 4096; sx->stx_dev_minor = 1;
    time_t t; long n;
    split_ns(in->mtime, &t, &n); sx->stx_mtime.tv_sec = t; sx->stx_mtime.tv_nsec = n;
    sx->stx_ctime.tv_sec = sx->stx_atime.tv_sec = 1600000000;
    if (has_btime) { split_ns(in->btime, &t, &n); sx->stx_btime.tv_sec = t; sx->stx_btime.tv_nsec = n; }
}
static int sim_stat(const char *path, int follow, struct inode **in) {
    sched_point();
    char canon[PATH_MAX]; struct node *n = NULL; canon[0] = 0;
    int r = resolve(path, follow, &n, canon);
    if (!canon[0]) strncpy(canon, path, PATH_MAX - 1);
    if (!r) r = -fault("stat", canon);
    ev("S"); ev_s(path); ev_s(canon); ev_n(r); ev_end();
    if (!r) *in = n->in;
    mutate("stat", canon);
    return r;
}
static int sim_fstat(int fd, struct inode **in) {
    static struct inode out_inode;
    struct vfd *v = vf(fd);
    if (!v) return -EBADF;
    int e = fault("fstat", v->path);
    ev("S"); ev_s(""); ev_s(v->path); ev_n(-e); ev_end();
    if (e) return -e;
    *in = v->in ? v->in : &out_inode;
    return 0;
}
static char *at_path(int dirfd, const char *path, char *buf) {
    if (dirfd == AT_FDCWD || path[0] == '/') return (char *)path;
    struct vfd *v = vf(dirfd);
    if (!v) return NULL;
    snprintf(buf, PATH_MAX, "%s/%s", v->path, path); return buf;
}

/* The C library entry points. Before the simulation starts they pass through. */

EXPORT int open64(const char *p, int flags, ...) {
    if (!active) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); long r = raw6(SYS_openat, AT_FDCWD, (long)p, flags, m, 0, 0); return r < 0 ? ret_err(r) : (int)r; }
    return sim_open(p, flags);
}
EXPORT int open(const char *p, int flags, ...) {
    if (!active) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); long r = raw6(SYS_openat, AT_FDCWD, (long)p, flags, m, 0, 0); return r < 0 ? ret_err(r) : (int)r; }
    return sim_open(p, flags);
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
    if (!active) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); long r = raw6(SYS_openat, d, (long)p, flags, m, 0, 0); return r < 0 ? ret_err(r) : (int)r; }
    char b[PATH_MAX]; char *q = at_path(d, p, b); if (!q) return ret_err(-EBADF);
    return sim_open(q, flags);
}
EXPORT int openat(int d, const char *p, int flags, ...) {
    if (!active) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); long r = raw6(SYS_openat, d, (long)p, flags, m, 0, 0); return r < 0 ? ret_err(r) : (int)r; }
    char b[PATH_MAX]; char *q = at_path(d, p, b); if (!q) return ret_err(-EBADF);
    return sim_open(q, flags);
}
EXPORT int creat(const char *p, mode_t m) { (void)m; if (active) effect("creat", p); return ret_err(-EACCES); }
EXPORT int creat64(const char *p, mode_t m) { return creat(p, m); }
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (!active) { long r = raw(SYS_read, fd, b, n); return r < 0 ? ret_err(r) : r; }
    struct iovec v = { b, n }; return sim_read(fd, &v, 1);
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!active) { long r = raw(SYS_readv, fd, v, n); return r < 0 ? ret_err(r) : r; }
    return sim_read(fd, v, n);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
    if (!active) { long r = raw6(SYS_pread64, fd, (long)b, n, off, 0, 0); return r < 0 ? ret_err(r) : r; }
    struct vfd *v = vf(fd); if (!v) return ret_err(-EBADF);
    size_t keep = v->pos; v->pos = off; struct iovec io = { b, n }; ssize_t r = sim_read(fd, &io, 1); v->pos = keep; return r;
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    if (!active) { long r = raw(SYS_write, fd, b, n); return r < 0 ? ret_err(r) : r; }
    struct iovec v = { (void *)b, n }; return sim_write(fd, &v, 1);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!active) { long r = raw(SYS_writev, fd, v, n); return r < 0 ? ret_err(r) : r; }
    return sim_write(fd, v, n);
}
EXPORT int close(int fd) {
    if (!active) { long r = raw(SYS_close, fd, 0, 0); return r < 0 ? ret_err(r) : 0; }
    return sim_close(fd);
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
    if (!active) { long r = raw(SYS_lseek, fd, off, wh); return r < 0 ? ret_err(r) : r; }
    struct vfd *v = vf(fd); if (!v) return ret_err(-EBADF);
    if (v->kind == F_STDIN || v->kind == F_OUT) return ret_err(-ESPIPE);
    int e = fault("lseek", v->path); if (e) return ret_err(-e);
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)v->pos : isize(v->in);
    if (base + off < 0) return ret_err(-EINVAL);
    v->pos = base + off; return v->pos;
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
EXPORT int stat64(const char *p, struct stat64 *st) {
    if (!active) { long r = raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0, 0, 0); return r < 0 ? ret_err(r) : 0; }
    struct inode *in; int r = sim_stat(p, 1, &in); if (r) return ret_err(r); fill_stat((struct stat *)st, in); return 0;
}
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) {
    if (!active) { long r = raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW, 0, 0); return r < 0 ? ret_err(r) : 0; }
    struct inode *in; int r = sim_stat(p, 0, &in); if (r) return ret_err(r); fill_stat((struct stat *)st, in); return 0;
}
EXPORT int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
EXPORT int fstat64(int fd, struct stat64 *st) {
    if (!active) { long r = raw(SYS_fstat, fd, st, 0); return r < 0 ? ret_err(r) : 0; }
    struct inode *in; int r = sim_fstat(fd, &in); if (r) return ret_err(r); fill_stat((struct stat *)st, in); return 0;
}
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
    if (!active) { long r = raw6(SYS_newfstatat, d, (long)p, (long)st, fl, 0, 0); return r < 0 ? ret_err(r) : 0; }
    if (!*p && (fl & AT_EMPTY_PATH)) return fstat64(d, st);
    char b[PATH_MAX]; char *q = at_path(d, p, b); if (!q) return ret_err(-EBADF);
    return fl & AT_SYMLINK_NOFOLLOW ? lstat64(q, st) : stat64(q, st);
}
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { return fstatat64(d, p, (struct stat64 *)st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
    if (!active) { long r = raw6(SYS_statx, d, (long)p, fl, mask, (long)sx, 0); return r < 0 ? ret_err(r) : 0; }
    struct inode *in; int r;
    __asm__("" : "+r"(sx), "+r"(p)); /* declared nonnull: keep the checks */
    if (!sx || (!p && !(fl & AT_EMPTY_PATH))) return ret_err(-EFAULT); /* std probes with null pointers */
    if (!p || (!*p && (fl & AT_EMPTY_PATH))) r = sim_fstat(d, &in);
    else { char b[PATH_MAX]; char *q = at_path(d, p, b); if (!q) return ret_err(-EBADF); r = sim_stat(q, !(fl & AT_SYMLINK_NOFOLLOW), &in); }
    if (r) return ret_err(r);
    fill_statx(sx, in); return 0;
}
EXPORT int access(const char *p, int m) {
    if (!active) { long r = raw(SYS_access, p, m, 0); return r < 0 ? ret_err(r) : 0; }
    struct inode *in; int r = sim_stat(p, 1, &in); return r ? ret_err(r) : 0;
}
EXPORT int faccessat(int d, const char *p, int m, int fl) { (void)fl; char b[PATH_MAX]; char *q = at_path(d, p, b); if (!q) return ret_err(-EBADF); return access(q, m); }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
    if (!active) { long r = raw(SYS_readlink, p, b, n); return r < 0 ? ret_err(r) : r; }
    struct inode *in; int r = sim_stat(p, 0, &in); if (r) return ret_err(r);
    if (in->kind != N_LINK) return ret_err(-EINVAL);
    size_t l = strlen(in->data); if (l > n) l = n; memcpy(b, in->data, l); return l;
}
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { char t[PATH_MAX]; char *q = at_path(d, p, t); if (!q) return ret_err(-EBADF); return readlink(q, b, n); }
EXPORT char *realpath(const char *p, char *out) {
    char canon[PATH_MAX]; struct node *n;
    if (!active) { errno = ENOENT; return NULL; }
    int r = resolve(p, 1, &n, canon); if (!r) r = -fault("stat", canon);
    ev("S"); ev_s(p); ev_s(canon); ev_n(r); ev_end();
    if (r) { errno = -r; return NULL; }
    if (!out) out = malloc(PATH_MAX);
    return strcpy(out, canon);
}
EXPORT char *getcwd(char *b, size_t n) {
    if (!active) { long r = raw(SYS_getcwd, b, n, 0); if (r < 0) { errno = -r; return NULL; } return b; }
    int e = fault("getcwd", cwd_); if (e) { errno = e; return NULL; }
    if (strlen(cwd_) + 1 > n) { errno = ERANGE; return NULL; }
    return strcpy(b, cwd_);
}
EXPORT int chdir(const char *p) {
    if (!active) { long r = raw(SYS_chdir, p, 0, 0); return r < 0 ? ret_err(r) : 0; }
    effect("chdir", p);
    char canon[PATH_MAX]; struct node *n; int r = resolve(p, 1, &n, canon);
    if (r) return ret_err(r);
    strcpy(cwd_, canon); return 0;
}

/* ---------------------------------------------------------- directories -- */

struct sdir { int fd, n, i; char **names; unsigned char *types; uint64_t *inos; char path[512]; struct dirent64 ent; };

static uint64_t hash_name(const char *s) { uint64_t h = 1469598103934665603ull ^ rd_seed; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
EXPORT DIR *opendir(const char *p) {
    if (!active) { errno = ENOENT; return NULL; }
    sched_point();
    char canon[PATH_MAX]; struct node *n = NULL; canon[0] = 0;
    int r = resolve(p, 1, &n, canon);
    if (!canon[0]) strncpy(canon, p, PATH_MAX - 1);
    if (!r) r = -fault("opendir", canon);
    if (!r && n->in->kind != N_DIR) r = -ENOTDIR;
    int fd = r;
    if (!r) fd = new_fd(F_DIR);
    ev("D"); ev_s(p); ev_s(canon); ev_n(fd); ev_end();
    if (fd < 0) { errno = -fd; return NULL; }
    fds[fd].in = n->in; strncpy(fds[fd].path, canon, sizeof fds[fd].path - 1);
    struct sdir *d = salloc(sizeof *d); memset(d, 0, sizeof *d);
    d->names = salloc((nnodes + 2) * sizeof *d->names); d->types = salloc(nnodes + 2);
    d->inos = salloc((nnodes + 2) * sizeof *d->inos); memset(d->inos, 0, 2 * sizeof *d->inos);
    d->fd = fd; strncpy(d->path, canon, sizeof d->path - 1);
    size_t l = strlen(canon); if (l == 1) l = 0;
    d->names[d->n] = "."; d->types[d->n++] = DT_DIR;
    d->names[d->n] = ".."; d->types[d->n++] = DT_DIR;
    int first = d->n;
    for (int i = 0; i < nnodes; i++) {
        struct node *k = &nodes[i];
        if (!k->alive || strncmp(k->path, canon, l) || k->path[l] != '/' || !k->path[l + 1] || strchr(k->path + l + 1, '/')) continue;
        d->names[d->n] = k->path + l + 1; d->inos[d->n] = k->in->ino;
        d->types[d->n++] = dt_unknown ? DT_UNKNOWN : k->in->kind == N_DIR ? DT_DIR : k->in->kind == N_LINK ? DT_LNK : k->in->kind == N_SOCK ? DT_SOCK : DT_REG;
    }
    if (rd_seed) for (int i = first + 1; i < d->n; i++) /* insertion sort by seeded hash */
        for (int j = i; j > first && hash_name(d->names[j]) < hash_name(d->names[j - 1]); j--) {
            char *t = d->names[j]; d->names[j] = d->names[j - 1]; d->names[j - 1] = t;
            unsigned char u = d->types[j]; d->types[j] = d->types[j - 1]; d->types[j - 1] = u;
            uint64_t w = d->inos[j]; d->inos[j] = d->inos[j - 1]; d->inos[j - 1] = w;
        }
    mutate("opendir", canon);
    return (DIR *)d;
}
EXPORT DIR *fdopendir(int fd) { struct vfd *v = vf(fd); if (!v) { errno = EBADF; return NULL; } char p[512]; strcpy(p, v->path); sim_close(fd); return opendir(p); }
EXPORT struct dirent64 *readdir64(DIR *dp) {
    struct sdir *d = (struct sdir *)dp;
    sched_point();
    int e = fault("readdir", d->path);
    if (e) { ev("d"); ev_s(d->path); ev_n(-e); ev_end(); errno = e; return NULL; }
    if (d->i >= d->n) return NULL;
    int i = d->i++;
    memset(&d->ent, 0, sizeof d->ent);
    d->ent.d_ino = d->inos[i] ? d->inos[i] : 1; d->ent.d_off = i + 1; d->ent.d_reclen = sizeof d->ent; d->ent.d_type = d->types[i];
    strncpy(d->ent.d_name, d->names[i], sizeof d->ent.d_name - 1);
    if (i >= 2) mutate("readdir", d->path);
    return &d->ent;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT int closedir(DIR *dp) {
    struct sdir *d = (struct sdir *)dp;
    ev("C"); ev_s(d->path); ev_n(d->fd); ev_n(0); ev_end();
    fds[d->fd].kind = F_FREE; nopen--; d->fd = -1; return 0;
}
EXPORT int dirfd(DIR *dp) { return ((struct sdir *)dp)->fd; }
EXPORT void rewinddir(DIR *dp) { ((struct sdir *)dp)->i = 0; }

/* ----------------------------------------------------- clock and chance -- */

static long long real_now(void) {
    clk_reads++;
    for (int i = 0; i < ncjumps; i++) if (cjumps[i].k == clk_reads) clk_real = cjumps[i].to;
    long long t = clk_real; clk_real += clk_tick; clk_mono += clk_tick > 0 ? clk_tick : 1;
    ev("T"); ev_n(t); ev_end();
    mutate("clock", "*");
    return t;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!active) { long r = raw(SYS_clock_gettime, c, ts, 0); return r < 0 ? ret_err(r) : 0; }
    sched_point();
    long long t;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) t = real_now(); else t = clk_mono++;
    split_ns(t, &ts->tv_sec, &ts->tv_nsec); return 0;
}
EXPORT time_t time(time_t *o) { if (!active) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; } time_t t; long n; split_ns(real_now(), &t, &n); if (o) *o = t; return t; }
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (active) { long long d = a->tv_sec * 1000000000ll + a->tv_nsec; clk_real += d; clk_mono += d; ev("SLEEP"); ev_n(d); ev_end(); if (threads_on) switch_from(tls_tid, 0); } return 0; }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; if (f) return 0; return nanosleep(a, b); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, NULL); return 0; }
EXPORT int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; nanosleep(&t, NULL); return 0; }

static uint64_t rnd_state = 1;
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    for (size_t i = 0; i < n; i++) { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; ((unsigned char *)b)[i] = rnd_state >> 24; }
    if (active) { ev("H"); ev_n(n); ev_end(); }
    return n;
}
EXPORT int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }

/* --------------------------------------------------------------- others -- */

EXPORT int isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
EXPORT int poll(struct pollfd *p, nfds_t n, int t) { (void)t; for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; }
EXPORT int fcntl64(int fd, int cmd, ...) {
    if (!active) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); long r = raw(SYS_fcntl, fd, cmd, x); return r < 0 ? ret_err(r) : (int)r; }
    struct vfd *v = vf(fd); if (!v) return ret_err(-EBADF);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int n = new_fd(v->kind); if (n < 0) return ret_err(n); fds[n] = *v; ev("DUP"); ev_s(v->path); ev_n(n); ev_end(); return n; }
    return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return fcntl64(fd, cmd, x); }
EXPORT int dup(int fd) { return fcntl64(fd, F_DUPFD, 3); }
EXPORT pid_t gettid(void) { return active ? sim_pid + my_tid() : raw(SYS_gettid, 0, 0, 0); }
EXPORT pid_t getpid(void) { return active ? sim_pid : raw(SYS_getpid, 0, 0, 0); }
EXPORT int flock(int fd, int op) { (void)fd; (void)op; return 0; }

#define DENY(ret, name, proto, what, pathexpr) EXPORT ret name proto { if (active) effect(what, (const char *)(pathexpr)); errno = EACCES; return (ret)-1; }
DENY(int, unlink, (const char *p), "unlink", p)
DENY(int, unlinkat, (int d, const char *p, int f), "unlink", p)
DENY(int, remove, (const char *p), "remove", p)
DENY(int, rename, (const char *p, const char *q), "rename", p)
DENY(int, renameat, (int d, const char *p, int e, const char *q), "rename", p)
DENY(int, renameat2, (int d, const char *p, int e, const char *q, unsigned f), "rename", p)
DENY(int, mkdir, (const char *p, mode_t m), "mkdir", p)
DENY(int, mkdirat, (int d, const char *p, mode_t m), "mkdir", p)
DENY(int, rmdir, (const char *p), "rmdir", p)
DENY(int, symlink, (const char *p, const char *q), "symlink", q)
DENY(int, symlinkat, (const char *p, int d, const char *q), "symlink", q)
DENY(int, link, (const char *p, const char *q), "link", q)
DENY(int, linkat, (int d, const char *p, int e, const char *q, int f), "link", q)
DENY(int, chmod, (const char *p, mode_t m), "chmod", p)
DENY(int, fchmod, (int d, mode_t m), "chmod", "fd")
DENY(int, fchmodat, (int d, const char *p, mode_t m, int f), "chmod", p)
DENY(int, chown, (const char *p, uid_t u, gid_t g), "chown", p)
DENY(int, lchown, (const char *p, uid_t u, gid_t g), "chown", p)
DENY(int, fchown, (int d, uid_t u, gid_t g), "chown", "fd")
DENY(int, truncate, (const char *p, off_t o), "truncate", p)
DENY(int, truncate64, (const char *p, off64_t o), "truncate", p)
DENY(int, ftruncate, (int d, off_t o), "truncate", "fd")
DENY(int, ftruncate64, (int d, off64_t o), "truncate", "fd")
DENY(int, utimensat, (int d, const char *p, const struct timespec t[2], int f), "utimens", p)
DENY(int, futimens, (int d, const struct timespec t[2]), "utimens", "fd")
DENY(int, mkstemp, (char *p), "mkstemp", p)
DENY(int, mkstemp64, (char *p), "mkstemp", p)
DENY(int, mkfifo, (const char *p, mode_t m), "mkfifo", p)
DENY(int, mknod, (const char *p, mode_t m, dev_t d), "mknod", p)
DENY(int, setxattr, (const char *p, const char *n, const void *v, size_t s, int f), "setxattr", p)
DENY(int, execve, (const char *p, char *const a[], char *const e[]), "exec", p)
DENY(int, execv, (const char *p, char *const a[]), "exec", p)
DENY(int, execvp, (const char *p, char *const a[]), "exec", p)
DENY(int, execvpe, (const char *p, char *const a[], char *const e[]), "exec", p)
DENY(int, system, (const char *p), "system", p)
DENY(pid_t, fork, (void), "fork", "")
DENY(pid_t, vfork, (void), "fork", "")
DENY(int, socket, (int a, int b, int c), "socket", "")
DENY(int, socketpair, (int a, int b, int c, int v[2]), "socket", "")
DENY(int, connect, (int a, const void *b, unsigned c), "connect", "")
DENY(int, pipe, (int p[2]), "pipe", "")
DENY(int, pipe2, (int p[2], int f), "pipe", "")
DENY(int, memfd_create, (const char *p, unsigned f), "memfd", p)
EXPORT int posix_spawn(pid_t *o, const char *p, const void *a, const void *b, char *const v[], char *const e[]) { (void)o; (void)a; (void)b; (void)v; (void)e; if (active) effect("spawn", p); return EACCES; }
EXPORT int posix_spawnp(pid_t *o, const char *p, const void *a, const void *b, char *const v[], char *const e[]) { return posix_spawn(o, p, a, b, v, e); }
EXPORT FILE *popen(const char *p, const char *m) { (void)m; if (active) effect("popen", p); errno = EACCES; return NULL; }

EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (active) switch (n) {
    case SYS_futex: r = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f); return r < 0 ? ret_err(r) : r;
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_statx: return statx(a, (char *)b, c, d, (struct statx *)e);
    case SYS_openat: return openat64(a, (char *)b, c, d);
    case SYS_open: return open64((char *)a, b, c);
    case SYS_read: return read(a, (void *)b, c);
    case SYS_write: return write(a, (void *)b, c);
    case SYS_close: return close(a);
    case SYS_clock_gettime: return clock_gettime(a, (struct timespec *)b);
    case SYS_gettid: return sim_pid + my_tid();
    case SYS_getpid: return sim_pid;
    case SYS_getuid: case SYS_geteuid: break;
    default: { char t[32]; snprintf(t, sizeof t, "%ld", n); effect("syscall", t); return ret_err(-EPERM); }
    }
    r = raw6(n, a, b, c, d, e, f);
    return r < 0 && r > -4096 ? ret_err(r) : r;
}

/* ------------------------------------------------------------- scenario -- */

static char *tok(char **s) {
    char *p = *s; while (*p == ' ') p++;
    if (!*p) { *s = p; return NULL; }
    char *e = p; while (*e && *e != ' ') e++;
    if (*e) *e++ = 0;
    *s = e; return p;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static char *unesc(char *t, size_t *len) {
    if (!t) { if (len) *len = 0; return ""; }
    if (*t == '=') t++;
    char *o = t, *w = t;
    for (; *t; t++) if (*t == '%') { *w++ = hexv(t[1]) * 16 + hexv(t[2]); t += 2; } else *w++ = *t;
    if (len) *len = w - o;
    *w = 0; return o;
}
static long long num(char *t) { return t ? strtoll(t, NULL, 10) : 0; }
static int *intlist(char *t, int *n) {
    int cap = 1; for (char *c = t; *c; c++) cap += *c == ',';
    int *v = salloc(cap * sizeof(int)); *n = 0;
    while (t && *t) { v[(*n)++] = strtol(t, &t, 10); if (*t == ',') t++; }
    return v;
}
static void scn_line(char *l) {
    char *k = tok(&l); if (!k || *k == '#') return;
    if (!strcmp(k, "cwd")) { strcpy(cwd_, unesc(tok(&l), NULL)); mkparents(cwd_); if (!node_at(cwd_)) node_put(cwd_, N_DIR); }
    else if (!strcmp(k, "dir")) { char *p = unesc(tok(&l), NULL); mkparents(p); struct node *n = node_put(p, N_DIR); n->in->mtime = num(tok(&l)); n->in->btime = num(tok(&l)); }
    else if (!strcmp(k, "sock")) { char *p = unesc(tok(&l), NULL); mkparents(p); struct node *n = node_put(p, N_SOCK); n->in->mtime = num(tok(&l)); n->in->btime = num(tok(&l)); }
    else if (!strcmp(k, "file")) {
        char *p = unesc(tok(&l), NULL); mkparents(p); struct node *n = node_put(p, N_FILE);
        n->in->mtime = num(tok(&l)); n->in->btime = num(tok(&l));
        n->in->data = unesc(tok(&l), &n->in->len);
    }
    else if (!strcmp(k, "link")) { char *p = unesc(tok(&l), NULL); mkparents(p); struct node *n = node_put(p, N_LINK); n->in->data = unesc(tok(&l), &n->in->len); }
    else if (!strcmp(k, "fakesize")) { struct node *n = node_at(unesc(tok(&l), NULL)); long long v = num(tok(&l)); if (n) n->in->fake_size = v; }
    else if (!strcmp(k, "stdin")) stdin_inode.data = unesc(tok(&l), &stdin_inode.len);
    else if (!strcmp(k, "chunk")) { struct chunk *c = &chunks[nchunks++]; c->path = unesc(tok(&l), NULL); c->sizes = intlist(tok(&l), &c->n); }
    else if (!strcmp(k, "wlimit")) { int fd = num(tok(&l)); if (fd == 1 || fd == 2) wlim[fd] = intlist(tok(&l), &nwlim[fd]); }
    else if (!strcmp(k, "fault")) {
        if (nrules >= MAXR) die(91);
        struct rule *r = &rules[nrules++]; strncpy(r->op, tok(&l), 11); r->path = unesc(tok(&l), NULL);
        r->nth = num(tok(&l)); r->count = num(tok(&l)); r->err = num(tok(&l));
    }
    else if (!strcmp(k, "mut")) {
        if (nmuts >= MAXM) die(91);
        struct mut *m = &muts[nmuts++]; strncpy(m->op, tok(&l), 11); m->path = unesc(tok(&l), NULL); m->nth = num(tok(&l));
        strncpy(m->act, tok(&l), 7); m->target = unesc(tok(&l), NULL); char *d = tok(&l); if (d && *d != '=') m->num = num(d); else m->data = unesc(d, &m->len);
    }
    else if (!strcmp(k, "clock")) { clk_real = num(tok(&l)); clk_tick = num(tok(&l)); }
    else if (!strcmp(k, "clockjump")) { cjumps[ncjumps].k = num(tok(&l)); cjumps[ncjumps++].to = num(tok(&l)); }
    else if (!strcmp(k, "random")) { rnd_state = num(tok(&l)) * 2 + 1; rnd_state *= 0x9E3779B97F4A7C15ull; }
    else if (!strcmp(k, "heap")) { heap_mode = num(tok(&l)); heap_poison = num(tok(&l)); uint64_t hs = num(tok(&l)); heap_rng = (hs * 2 + 1) * 0x9E3779B97F4A7C15ull;
        if (hs) { heap_init(); heap_cur += (hrand() % 65536) * 16; } /* and placed elsewhere */ }
    else if (!strcmp(k, "sched")) { sched_rng = (num(tok(&l)) * 2 + 1) * 0x9E3779B97F4A7C15ull; sched_period = num(tok(&l)); if (sched_period < 1) sched_period = 1; }
    else if (!strcmp(k, "rdseed")) rd_seed = num(tok(&l));
    else if (!strcmp(k, "nobtime")) has_btime = 0;
    else if (!strcmp(k, "dtunknown")) dt_unknown = 1;
    else if (!strcmp(k, "fdlimit")) fdlimit = num(tok(&l));
    else if (!strcmp(k, "killop")) kill_op = num(tok(&l));
    else if (!strcmp(k, "killalloc")) kill_alloc = num(tok(&l));
    else if (!strcmp(k, "allocfail")) { alloc_fail = num(tok(&l)); alloc_fail_count = num(tok(&l)); }
    else if (!strcmp(k, "pid")) sim_pid = (int)num(tok(&l));
    else if (!strcmp(k, "budget")) op_budget = num(tok(&l));
}

/* -------------------------------------------------------------- seccomp -- */

static void on_sigsys(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = uc_; (void)sig;
    if (active && lg) { lg->flags |= LF_SECCOMP; log_str("EFFECT 0 rawsyscall ="); log_num(si->si_syscall); log_raw("\n", 1); }
    uc->uc_mcontext.gregs[REG_RAX] = -EPERM;
}
static void install_seccomp(void) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, NULL);
    static const int ok[] = {
        SYS_exit, SYS_exit_group, SYS_futex, SYS_mmap, SYS_munmap, SYS_mprotect, SYS_mremap, SYS_brk, SYS_madvise,
        SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack, SYS_clone3, SYS_clone, SYS_set_robust_list,
        SYS_rseq, SYS_sched_yield, SYS_gettid, SYS_getpid, SYS_tgkill, SYS_sched_getaffinity, SYS_prlimit64,
        SYS_read, SYS_close, SYS_fstat, SYS_newfstatat, SYS_lseek, SYS_poll, SYS_restart_syscall, SYS_set_tid_address, SYS_getuid, SYS_geteuid, SYS_getgid, SYS_getegid,
        SYS_clock_gettime, SYS_prctl, SYS_arch_prctl, SYS_membarrier, SYS_getrandom,
    };
    int n = sizeof ok / sizeof *ok;
    struct sock_filter f[128]; int k = 0;
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < n; i++) {
        f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ok[i], 0, 1);
        f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    }
    /* The C library itself may open files for reading (/proc/self/maps). */
    f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_openat, 0, 4);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2]));
    f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC, 1, 0);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog prog = { k, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return;
    prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog, 0, 0);
}

/* Which variables a build asks for; no step of its own. */
extern char **environ;
EXPORT char *getenv(const char *name) {
    size_t n = strlen(name);
    if (active) { log_str("V 0"); ev_s(name); log_raw("\n", 1); }
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
EXPORT char *secure_getenv(const char *name) { return getenv(name); }

__attribute__((constructor)) static void sim_init(void) {
    char *scn = getenv("SIM_SCN"), *log = getenv("SIM_LOG");
    if (!scn || !log) return;
    long fd = raw6(SYS_openat, AT_FDCWD, (long)log, O_RDWR, 0, 0, 0);
    if (fd < 0) die(90);
    struct stat st; raw(SYS_fstat, fd, &st, 0);
    lg = (struct loghdr *)raw6(SYS_mmap, 0, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if ((unsigned long)lg > -4096UL) die(90);
    raw(SYS_close, fd, 0, 0);
    memset(lg, 0, sizeof *lg);
    lg->magic = 0x53494D4C4F473031; lg->cap = st.st_size - sizeof *lg - 4096; logbuf = (char *)(lg + 1);
    fd = raw6(SYS_openat, AT_FDCWD, (long)scn, O_RDONLY, 0, 0, 0);
    if (fd < 0) die(90);
    raw(SYS_fstat, fd, &st, 0);
    char *buf = salloc(st.st_size + 1); size_t got = 0;
    while (got < (size_t)st.st_size) { long r = raw(SYS_read, fd, buf + got, st.st_size - got); if (r <= 0) die(90); got += r; }
    buf[got] = 0;
    raw(SYS_close, fd, 0, 0);
    unsetenv("SIM_SCN"); unsetenv("SIM_LOG"); unsetenv("LD_PRELOAD");
    node_put("/", N_DIR);
    stdin_inode.kind = N_FILE; stdin_inode.data = ""; stdin_inode.fake_size = -1;
    fds[0].kind = F_STDIN; fds[0].in = &stdin_inode; strcpy(fds[0].path, "<stdin>");
    fds[1].kind = F_OUT; strcpy(fds[1].path, "<stdout>");
    fds[2].kind = F_OUT; strcpy(fds[2].path, "<stderr>");
    for (char *l = buf; *l;) { char *e = strchr(l, '\n'); if (e) *e = 0; scn_line(l); if (!e) break; l = e + 1; }
    install_seccomp();
    active = 1;
}
__attribute__((destructor)) static void sim_fini(void) {
    if (!active) return;
    heap_verify();
    lg->flags |= LF_EXITED; lg->leaked_fds = nopen;
}
