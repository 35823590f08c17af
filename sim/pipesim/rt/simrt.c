#define _GNU_SOURCE
#include "simrt.h"
#include <elf.h>
#include <link.h>
#include <setjmp.h>
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

// ---- generator -------------------------------------------------------------
typedef struct { uint64_t s; } rng_t;
static uint64_t rnd(rng_t *r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rndn(rng_t *r, uint64_t n) { return n ? rnd(r) % n : 0; }

// ---- threads ---------------------------------------------------------------
enum { UNUSED = 0, RUNNABLE, WAITING, SLEEPING, JOINING, DEAD };
typedef struct T {
    int id, state;
    volatile int sem;
    volatile uint32_t *faddr;
    uint32_t bitset;
    uint64_t deadline; // 0 = none
    int timed_out, woken;
    int joining;
    int64_t prio;
    uint64_t npoints[DK_NKINDS];
    void *(*fn)(void *);
    void *arg, *ret;
    pthread_t pt;
} T;
#define MAXT 128
static T th[MAXT];
static int nth;
static __thread T *self;
static volatile int active;
static T *current;
static sim_cfg cfg;
static rng_t rs, rf, rh, rp, rg;
static sim_stats st;
static uint64_t now_ns, hist;
static uint64_t countdown;
static int starved = -1;
static uint64_t pct_points[16];
static int64_t pct_low;
static void (*stuck_cb)(int);
static pthread_key_t exit_key;

#define MAXD 200000
static sim_decision *dec;
static size_t ndec;
static const sim_decision *ovr;
static size_t novr;
// replay table: open addressing on (tid, kind, n)
static sim_decision *ovt;
static size_t ovcap;

static uint64_t hkey(uint32_t tid, uint32_t kind, uint64_t n) {
    uint64_t h = n * 0x9e3779b97f4a7c15ull ^ ((uint64_t)tid << 40) ^ ((uint64_t)kind << 56);
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    return h ^ (h >> 32);
}
static int ov_find(uint32_t tid, uint32_t kind, uint64_t n, int64_t *v) {
    if (!novr) return 0;
    for (size_t i = hkey(tid, kind, n) & (ovcap - 1);; i = (i + 1) & (ovcap - 1)) {
        sim_decision *d = &ovt[i];
        if (d->kind == ~0u) return 0;
        if (d->tid == tid && d->kind == kind && d->n == n) { *v = d->v; return 1; }
    }
}
static void record(uint32_t tid, uint32_t kind, uint64_t n, int64_t v) {
    if (ndec < MAXD) { dec[ndec].tid = tid; dec[ndec].kind = kind; dec[ndec].n = n; dec[ndec].v = v; }
    ndec++;
}
static void mix(uint64_t v) { hist = (hist ^ v) * 0x100000001b3ull; hist ^= hist >> 31; }

static void die_stuck(int why) {
    active = 0;
    st.points = st.points;
    stuck_cb(why);
    raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

static void sem_wait_(T *t) {
    while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)&t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}
static void sem_post_(T *t) {
    __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void switch_to(T *s, T *n, int park) {
    if (s == n) return;
    st.switches++;
    mix(((uint64_t)s->id << 32) | (uint64_t)n->id);
    mix(s->npoints[DK_PREEMPT]);
    current = n;
    sem_post_(n);
    if (park) sem_wait_(s);
}

static T *pick(T *exclude, rng_t *r) {
    T *c[MAXT];
    int n = 0;
    for (int i = 0; i < nth; i++)
        if (th[i].state == RUNNABLE && &th[i] != exclude) c[n++] = &th[i];
    if (!n) return NULL;
    if (cfg.policy == 1) {
        T *b = c[0];
        for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
        return b;
    }
    if (cfg.policy == 2 && n > 1 && starved >= 0 && rndn(r, 64)) {
        int m = 0;
        for (int i = 0; i < n; i++) if (c[i]->id != starved) c[m++] = c[i];
        n = m;
    }
    return c[rndn(r, n)];
}
static T *next_default(T *s) {
    for (int k = 1; k <= nth; k++) {
        T *t = &th[(s->id + k) % nth];
        if (t->state == RUNNABLE && t != s) return t;
    }
    return NULL;
}

static void wake_due(void) {
    for (int i = 0; i < nth; i++) {
        T *t = &th[i];
        if ((t->state == SLEEPING || t->state == WAITING) && t->deadline && t->deadline <= now_ns) {
            t->timed_out = t->state == WAITING;
            t->state = RUNNABLE;
        }
    }
}

// the current thread cannot run: choose another
static void reschedule(T *s, int park) {
    for (;;) {
        wake_due();
        T *d = next_default(s);
        if (s->state == RUNNABLE && !d) return; // woken by the clock
        if (d) break;
        if (s->state == RUNNABLE) return;
        uint64_t best = 0;
        for (int i = 0; i < nth; i++)
            if ((th[i].state == SLEEPING || th[i].state == WAITING) && th[i].deadline && (!best || th[i].deadline < best)) best = th[i].deadline;
        if (!best) die_stuck(1);
        now_ns = best;
        st.clock_jumps++;
    }
    uint64_t k = s->npoints[DK_BLOCKED]++;
    T *d = next_default(s), *n = d;
    int64_t v;
    if (cfg.replay) {
        if (ov_find(s->id, DK_BLOCKED, k, &v) && v >= 0 && v < nth && th[v].state == RUNNABLE) { n = &th[v]; record(s->id, DK_BLOCKED, k, v); }
    } else {
        n = pick(s->state == RUNNABLE ? NULL : s, &rs);
        if (n != d) record(s->id, DK_BLOCKED, k, n->id);
    }
    switch_to(s, n, park);
}

static uint64_t geo(rng_t *r, uint32_t mean) {
    if (mean <= 1) return 1;
    return 1 + rndn(r, 2ull * mean - 1);
}

static uint64_t *tracebuf, trace_pc;
static size_t ntrace;
static void point(T *s) {
    if (tracebuf && ntrace < 1000000) { tracebuf[2 * ntrace] = s->id; tracebuf[2 * ntrace + 1] = trace_pc; ntrace++; }
    st.points++;
    now_ns += 20;
    uint64_t k = s->npoints[DK_PREEMPT]++;
    if (st.points > cfg.max_points) die_stuck(2);
    T *n = NULL;
    int64_t v;
    if (cfg.replay) {
        if (!ov_find(s->id, DK_PREEMPT, k, &v)) return;
        if (v < 0 || v >= nth || th[v].state != RUNNABLE || &th[v] == s) return;
        n = &th[v];
    } else if (cfg.policy == 3) {
        return;
    } else if (cfg.policy == 1) {
        if (--countdown == 0) {
            countdown = geo(&rs, cfg.pct_span);
            s->prio = --pct_low;
        }
        // highest priority runnable runs
        n = pick(NULL, &rs);
        if (n == s) return;
    } else {
        if (--countdown) return;
        countdown = geo(&rs, cfg.preempt_inv);
        n = pick(s, &rs);
        if (!n) return;
    }
    record(s->id, DK_PREEMPT, k, n->id);
    st.preemptions++;
    switch_to(s, n, 1);
}

#define POINT() do { T *s_ = self; if (active && s_) { trace_pc = (uint64_t)__builtin_return_address(0); point(s_); } } while (0)
void sim_point(void) { POINT(); }

static void yield_point(T *s) {
    st.points++;
    now_ns += 50;
    s->npoints[DK_PREEMPT]++;
    if (st.points > cfg.max_points) die_stuck(2);
    if (!next_default(s)) { 
        // alone: let time pass so that sleepers may proceed
        wake_due();
        return;
    }
    if (cfg.policy == 1) s->prio = --pct_low;
    reschedule(s, 1);
}

static int fault(int kind) {
    T *s = self;
    if (!active || !s) return 0;
    if (!(cfg.fault_mask >> kind & 1)) return 0;
    uint64_t k = s->npoints[DK_FAULT]++;
    int64_t v = 0;
    if (cfg.replay) { ov_find(s->id, DK_FAULT, k, &v); if (v && (v & 0xff) != kind + 1) v = 0; }
    else if (cfg.fault_inv && rndn(&rf, cfg.fault_inv) == 0) v = (int64_t)(rnd(&rf) >> 20 << 8 & 0x7fffffffffffff00) | (kind + 1);
    if (v) { record(s->id, DK_FAULT, k, v); st.fault_count[kind]++; st.faults_fired++; mix(v); return (int)(v >> 8 & 0x3fffffff) | 0x40000000; }
    return 0;
}

int64_t sim_user_choice(int64_t n) {
    T *s = self;
    if (!active || !s || n <= 1) return 0;
    uint64_t k = s->npoints[DK_USER]++;
    int64_t v = 0;
    if (cfg.replay) { ov_find(s->id, DK_USER, k, &v); if (v >= n) v = 0; }
    else v = (int64_t)rndn(&rp, n);
    if (v) record(s->id, DK_USER, k, v);
    return v;
}
uint64_t sim_step(void) { return st.points; }
uint32_t sim_tid(void) { return self ? (uint32_t)self->id : ~0u; }

// ---- begin/end -------------------------------------------------------------
static void on_exit_key(void *p);
static int64_t new_prio(void) { return (int64_t)(rnd(&rs) >> 2) + (1ll << 40); }

void sim_begin(const sim_cfg *c, const sim_decision *ov, size_t nov, void (*on_stuck)(int)) {
    cfg = *c;
    ovr = ov; novr = nov;
    stuck_cb = on_stuck;
    rs.s = c->sched_seed; rf.s = c->fault_seed ^ 0x1234567; rh.s = c->hash_seed ^ 0x777; rp.s = c->sched_seed ^ 0xabcdef99; rg.s = c->fault_seed ^ 0x6c6c6c;
    memset(&st, 0, sizeof st);
    memset(th, 0, sizeof th);
    nth = 1;
    ndec = 0;
    hist = 0xcbf29ce484222325ull;
    now_ns = 1000000000ull;
    if (!dec) dec = mmap(NULL, sizeof(sim_decision) * MAXD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (ovcap = 16; ovcap < nov * 3 + 8;) ovcap *= 2;
    ovt = mmap(NULL, sizeof(sim_decision) * ovcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < ovcap; i++) ovt[i].kind = ~0u;
    for (size_t j = 0; j < nov; j++) {
        size_t i = hkey(ov[j].tid, ov[j].kind, ov[j].n) & (ovcap - 1);
        while (ovt[i].kind != ~0u) i = (i + 1) & (ovcap - 1);
        ovt[i] = ov[j];
    }
    pthread_key_create(&exit_key, on_exit_key);
    self = &th[0];
    self->id = 0; self->state = RUNNABLE; self->prio = new_prio();
    current = self;
    countdown = cfg.policy == 1 ? geo(&rs, cfg.pct_span) : geo(&rs, cfg.preempt_inv);
    pct_low = 0;
    starved = cfg.policy == 2 ? (int)rndn(&rs, 8) : -1;
    if (getenv("SIM_TRACE")) {
        int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)getenv("SIM_TRACE"), O_RDWR | O_CREAT | O_TRUNC, 0644, 0, 0);
        if (ftruncate(fd, 16000000) == 0) tracebuf = mmap(NULL, 16000000, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    }
    active = 1;
}
void sim_end(sim_stats *out) {
    active = 0;
    st.sim_ns = now_ns - 1000000000ull;
    st.trace_hash = hist;
    st.threads = nth;
    st.ndecisions = (uint32_t)ndec;
    *out = st;
}
const sim_decision *sim_decisions(size_t *n) { *n = ndec < MAXD ? ndec : MAXD; return dec; }

// ---- pthreads --------------------------------------------------------------
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
__attribute__((constructor)) static void init_real(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    real_detach = dlsym(RTLD_NEXT, "pthread_detach");
}

static void thread_dead(T *t) {
    t->state = DEAD;
    for (int i = 0; i < nth; i++)
        if (th[i].state == JOINING && th[i].joining == t->id) th[i].state = RUNNABLE;
    reschedule(t, 0);
    for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
static void on_exit_key(void *p) {
    T *t = p;
    static __thread int rounds;
    if (!active) return;
    if (++rounds < 3) { pthread_setspecific(exit_key, t); return; }
    thread_dead(t);
}
static void *tramp(void *p) {
    T *t = p;
    self = t;
    sem_wait_(t);
    pthread_setspecific(exit_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    T *s = self;
    if (!active || !s) return real_create(pt, a, fn, arg);
    if (nth >= MAXT) return EAGAIN;
    T *t = &th[nth];
    memset(t, 0, sizeof *t);
    t->id = nth;
    t->fn = fn; t->arg = arg;
    t->prio = new_prio();
    t->state = RUNNABLE;
    int r = real_create(pt, a, tramp, t);
    if (r) return r;
    nth++;
    t->pt = *pt;
    mix(0x1000 + t->id);
    point(s);
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    T *s = self;
    if (!active || !s) return real_join(pt, ret);
    for (int i = 0; i < nth; i++)
        if (th[i].id && pthread_equal(th[i].pt, pt)) {
            if (th[i].state != DEAD) {
                s->state = JOINING; s->joining = i;
                reschedule(s, 1);
            }
            if (ret) *ret = th[i].ret;
            return 0;
        }
    return real_join(pt, ret);
}
int pthread_detach(pthread_t pt) {
    if (!active || !self) return real_detach(pt);
    return 0;
}

// ---- futex -----------------------------------------------------------------
static long sim_futex(T *s, uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t bitset) {
    int cmd = op & FUTEX_CMD_MASK;
    switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        point(s);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        st.futex_waits++;
        if (cfg.spurious_inv || cfg.replay) {
            uint64_t k = s->npoints[DK_SPURIOUS]++;
            int64_t v = 0;
            if (cfg.replay) ov_find(s->id, DK_SPURIOUS, k, &v);
            else v = rndn(&rf, cfg.spurious_inv) == 0;
            if (v) { record(s->id, DK_SPURIOUS, k, v); st.spurious++; point(s); return -EINTR; }
        }
        s->state = WAITING; s->faddr = addr; s->bitset = cmd == FUTEX_WAIT ? ~0u : bitset;
        s->timed_out = 0;
        s->deadline = 0;
        if (ts) {
            uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            s->deadline = cmd == FUTEX_WAIT ? now_ns + t : t;
            if (!s->deadline) s->deadline = 1;
        }
        reschedule(s, 1);
        s->faddr = NULL; s->deadline = 0;
        if (s->timed_out) return -ETIMEDOUT;
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        long woken = 0;
        uint32_t bs = cmd == FUTEX_WAKE ? ~0u : bitset;
        while (woken < (long)val) {
            T *c[MAXT]; int n = 0;
            for (int i = 0; i < nth; i++)
                if (th[i].state == WAITING && th[i].faddr == addr && (th[i].bitset & bs)) c[n++] = &th[i];
            if (!n) break;
            uint64_t k = s->npoints[DK_WAKE]++;
            int64_t v = 0;
            if (cfg.replay) { ov_find(s->id, DK_WAKE, k, &v); if (v >= n) v = 0; }
            else v = (int64_t)rndn(&rs, n);
            if (v) record(s->id, DK_WAKE, k, v);
            c[v]->state = RUNNABLE; c[v]->faddr = NULL; c[v]->timed_out = 0;
            woken++;
        }
        st.futex_wakes++;
        point(s);
        return woken;
    }
    }
    return -ENOSYS;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    T *s = self;
    if (n == SYS_futex && active && s) r = sim_futex(s, (uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    else r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

int sched_yield(void) {
    T *s = self;
    if (active && s) { yield_point(s); return 0; }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

// ---- clocks and randomness -------------------------------------------------
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (active && self) {
        now_ns += 100;
        uint64_t t = now_ns + (id == CLOCK_REALTIME ? 1600000000ull * 1000000000ull : 0);
        ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
        return 0;
    }
    long r = raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
static int sim_sleep(T *s, const struct timespec *d) {
    s->state = SLEEPING;
    s->deadline = now_ns + (uint64_t)d->tv_sec * 1000000000ull + d->tv_nsec + 1;
    reschedule(s, 1);
    s->deadline = 0;
    return 0;
}
int nanosleep(const struct timespec *d, struct timespec *rem) {
    if (active && self) return sim_sleep(self, d);
    long r = raw6(SYS_nanosleep, (long)d, (long)rem, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *d, struct timespec *rem) {
    if (active && self) {
        struct timespec t = *d;
        if (flags & TIMER_ABSTIME) {
            uint64_t a = (uint64_t)d->tv_sec * 1000000000ull + d->tv_nsec, w = a > now_ns ? a - now_ns : 0;
            t.tv_sec = w / 1000000000ull; t.tv_nsec = w % 1000000000ull;
        }
        return sim_sleep(self, &t);
    }
    return (int)-raw6(SYS_clock_nanosleep, id, flags, (long)d, (long)rem, 0, 0);
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    if (active && self) {
        unsigned char *p = buf;
        for (size_t i = 0; i < len; i++) p[i] = (unsigned char)(rnd(&rh) >> 13);
        return (ssize_t)len;
    }
    // outside the simulation too: whatever is seeded before it starts must be repeatable
    (void)flags;
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++) p[i] = (unsigned char)(rnd(&rh) >> 13);
    return (ssize_t)len;
}
void sim_seed_hash(uint64_t h) { rh.s = h; }

// ---- simulated disk (paths under /sim/) --------------------------------------
typedef struct { const char *path; const unsigned char *data; size_t len; } simfile;
#define MAXF 512
static simfile files[MAXF];
static int nfiles;
typedef struct { int used, file; size_t pos; int log; } simfd;
#define FDBASE 1000000
static simfd fds[1024];
static sim_openlog olog[4096];
static size_t nolog;

void sim_fs_reset(void) { nfiles = 0; nolog = 0; memset(fds, 0, sizeof fds); }
void sim_fs_add(const char *path, const void *data, size_t len) {
    if (nfiles >= MAXF) abort();
    files[nfiles].path = strdup(path);
    void *d = malloc(len + 1); memcpy(d, data, len);
    files[nfiles].data = d; files[nfiles].len = len;
    nfiles++;
}
const sim_openlog *sim_opens(size_t *n) { *n = nolog; return olog; }
static int is_sim(const char *p) { return active && self && strncmp(p, "/sim/", 5) == 0; }

static int sim_open(const char *p) {
    POINT();
    int f = -1;
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].path, p)) f = i;
    if (fault(F_OPEN_EINTR)) { errno = EINTR; return -1; }
    size_t l = nolog;
    if (nolog < 4096) { olog[l].file = (uint32_t)f; olog[l].hard = 0; olog[l].delivered = 0; nolog++; }
    if (f < 0) { errno = ENOENT; olog[l].hard = ENOENT; return -1; }
    if (fault(F_OPEN_EACCES)) { errno = EACCES; olog[l].hard = EACCES; return -1; }
    if (fault(F_OPEN_EMFILE)) { errno = EMFILE; olog[l].hard = EMFILE; return -1; }
    if (fault(F_OPEN_EIO)) { errno = EIO; olog[l].hard = EIO; return -1; }
    for (int i = 0; i < 1024; i++)
        if (!fds[i].used) { fds[i].used = 1; fds[i].file = f; fds[i].pos = 0; fds[i].log = (int)l; return FDBASE + i; }
    errno = EMFILE;
    olog[l].hard = EMFILE;
    return -1;
}
int open64(const char *p, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (is_sim(p)) return sim_open(p);
    long r = raw6(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return (int)r;
}
int open(const char *p, int flags, ...) __attribute__((alias("open64")));
ssize_t read(int fd, void *buf, size_t n) {
    if (active && self && fd >= FDBASE) {
        POINT();
        simfd *d = &fds[fd - FDBASE];
        simfile *f = &files[d->file];
        int r;
        if (fault(F_READ_EINTR)) { errno = EINTR; return -1; }
        if (fault(F_READ_EIO)) { errno = EIO; olog[d->log].hard = EIO; return -1; }
        size_t left = f->len - d->pos;
        if (n > left) n = left;
        if (n > 1 && (r = fault(F_READ_SHORT))) n = 1 + (size_t)(r & 0x3fffffff) % (n - 1);
        memcpy(buf, f->data + d->pos, n);
        d->pos += n;
        olog[d->log].delivered += n;
        return (ssize_t)n;
    }
    long r = raw6(SYS_read, fd, (long)buf, n, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
int close(int fd) {
    if (active && self && fd >= FDBASE) { POINT(); fds[fd - FDBASE].used = 0; return 0; }
    long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int statx(int dirfd, const char *p, int flags, unsigned mask, struct statx *sx) {
    if (active && self && dirfd >= FDBASE) {
        POINT();
        if (fault(F_STAT_FAIL)) { errno = EIO; return -1; }
        memset(sx, 0, sizeof *sx);
        sx->stx_mask = STATX_BASIC_STATS;
        sx->stx_mode = S_IFREG | 0644;
        sx->stx_size = fault(F_STAT_ZERO) ? 0 : files[fds[dirfd - FDBASE].file].len;
        return 0;
    }
    long r = raw6(SYS_statx, dirfd, (long)p, flags, mask, (long)sx, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
off64_t lseek64(int fd, off64_t off, int wh) {
    if (active && self && fd >= FDBASE) { return wh == SEEK_CUR && off == 0 ? (off64_t)fds[fd - FDBASE].pos : (errno = ESPIPE, -1); }
    long r = raw6(SYS_lseek, fd, off, wh, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

// ---- program output ----------------------------------------------------------
static char outbuf[1 << 20];
static size_t outn;
int putchar(int c) {
    if (outn < sizeof outbuf) outbuf[outn++] = (char)c;
    return c & 0xff;
}
const char *sim_output(size_t *n) { *n = outn; return outbuf; }

// ---- the garbage collector -----------------------------------------------------
// A conservative mark-and-sweep collector in place of libgc: it collects when the seed says
// so, follows what libgc follows (the allocating thread's stack and registers, the data of
// the program, the heap; interior pointers and one-past-the-end count) and overwrites what it
// frees. Freed memory is never reused, so a use after free reads the overwriting pattern.
#define GC_ARENA (1ull << 32)
static char *gc_base, *gc_top, *gc_lim;
typedef struct { uint32_t off16, size; uint8_t mark, dead; } gcobj; // offset in 16-byte units
static gcobj *gc_objs;
static uint32_t gc_n;
static uint32_t *gc_work, gc_nwork;
static void *gc_thread_lo, *gc_thread_hi;
static T *gc_thread;
static int gc_nthreads;
#define GC_MAXOBJ (1u << 24)
typedef struct { char *lo, *hi; } seg;
static seg segs[64];
static int nsegs;
static int seg_cb(struct dl_phdr_info *i, size_t sz, void *a) {
    (void)sz; (void)a;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_W) && nsegs < 64) {
            segs[nsegs].lo = (char *)(((uintptr_t)i->dlpi_addr + p->p_vaddr + 7) & ~7ull);
            segs[nsegs].hi = (char *)i->dlpi_addr + p->p_vaddr + p->p_memsz;
            nsegs++;
        }
    }
    return 1; // the program itself comes first; its libraries hold no references
}
static void gc_mark_word(uintptr_t w) {
    if (w < (uintptr_t)gc_base || w >= (uintptr_t)gc_top) return;
    uint32_t o = (uint32_t)((w - (uintptr_t)gc_base) >> 4);
    uint32_t a = 0, b = gc_n; // last object starting at or below
    while (b - a > 1) { uint32_t m = (a + b) / 2; if (gc_objs[m].off16 <= o) a = m; else b = m; }
    gcobj *x = &gc_objs[a];
    if (x->dead || x->mark) return;
    if (w - (uintptr_t)gc_base > ((uintptr_t)x->off16 << 4) + x->size) return; // one past the end still counts
    x->mark = 1;
    gc_work[gc_nwork++] = a;
}
__attribute__((no_sanitize("address"))) static void gc_scan(char *lo, char *hi) {
    lo = (char *)(((uintptr_t)lo + 7) & ~7ull);
    for (; lo + 8 <= hi; lo += 8) gc_mark_word(*(uintptr_t *)lo);
    while (gc_nwork) {
        gcobj *x = &gc_objs[gc_work[--gc_nwork]];
        char *p = gc_base + ((uintptr_t)x->off16 << 4), *e = p + x->size;
        for (; p + 8 <= e; p += 8) gc_mark_word(*(uintptr_t *)p);
    }
}
__attribute__((noinline)) static void gc_collect(void) {
    jmp_buf regs;
    __builtin_unwind_init();
    setjmp(regs);
    uintptr_t raw[6];
    __asm__ volatile("movq %%rbx,0(%0)\n movq %%rbp,8(%0)\n movq %%r12,16(%0)\n movq %%r13,24(%0)\n movq %%r14,32(%0)\n movq %%r15,40(%0)" : : "r"(raw) : "memory");
    for (uint32_t i = 0; i < gc_n; i++) gc_objs[i].mark = 0;
    for (int i = 0; i < 6; i++) gc_mark_word(raw[i]);
    gc_scan((char *)__builtin_frame_address(0) - 512, gc_thread_hi);
    for (int i = 0; i < nsegs; i++) gc_scan(segs[i].lo, segs[i].hi);
    for (uint32_t i = 0; i < gc_n; i++) {
        gcobj *x = &gc_objs[i];
        if (!x->dead && !x->mark) {
            x->dead = 1;
            memset(gc_base + ((uintptr_t)x->off16 << 4), 0xdb, x->size);
            st.gc_freed++;
        }
    }
    st.gc_runs++;
}
int sim_gc_threads(void) { return gc_nthreads; }
void *GC_malloc(size_t n) {
    if (!gc_base) {
        gc_base = gc_top = mmap(NULL, GC_ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        gc_lim = gc_base + GC_ARENA;
        gc_objs = mmap(NULL, sizeof(gcobj) * (size_t)GC_MAXOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        gc_work = mmap(NULL, sizeof(uint32_t) * (size_t)GC_MAXOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_t a;
        size_t sz;
        pthread_getattr_np(pthread_self(), &a);
        pthread_attr_getstack(&a, &gc_thread_lo, &sz);
        pthread_attr_destroy(&a);
        gc_thread_hi = (char *)gc_thread_lo + sz;
        gc_thread = self;
        gc_nthreads = 1;
        dl_iterate_phdr(seg_cb, NULL);
    }
    if (self != gc_thread) gc_nthreads = 2;
    else if (active && (cfg.gc_inv || cfg.replay)) {
        uint64_t k = self->npoints[DK_GC]++;
        int64_t v = 0;
        if (cfg.replay) ov_find(self->id, DK_GC, k, &v);
        else v = cfg.gc_inv == 1 || rndn(&rg, cfg.gc_inv) == 0;
        if (v) { record(self->id, DK_GC, k, 1); gc_collect(); }
    }
    size_t sz = (n + 16) & ~15ull; // at least one byte more than asked for
    if (gc_top + sz > gc_lim || gc_n >= GC_MAXOBJ) return NULL;
    gcobj *x = &gc_objs[gc_n++];
    x->off16 = (uint32_t)((gc_top - gc_base) >> 4);
    x->size = (uint32_t)n;
    gc_top += sz;
    st.gc_allocs++;
    return gc_base + ((uintptr_t)x->off16 << 4);
}

// ---- the instrumentation runtime: every atomic operation is a scheduling point ----
void __tsan_init(void) {}
#define LOADSTORE(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { (void)mo; POINT(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { (void)mo; POINT(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { (void)mo; POINT(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { (void)mo; (void)fmo; POINT(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
LOADSTORE(8, uint8_t)
LOADSTORE(16, uint16_t)
LOADSTORE(32, uint32_t)
LOADSTORE(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; POINT(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
