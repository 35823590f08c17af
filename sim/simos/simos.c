// simos: a simulated operating system for one compiled program (and the processes it forks).
// Preloaded into the program, it takes over files, descriptors, pipes, processes, signals,
// clocks, randomness and the garbage collector. Processes are real forks sharing one arena,
// but only the holder of the token runs: the seed decides who runs at every system call, which
// calls fail and how, how reads and writes are split and where the collector runs. One plan
// (seed or decision list) is one exactly repeatable execution.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXP 64
#define MAXFD 256
#define MAXINO 4096
#define MAXOFD 1024
#define ARENA (1ull << 30)
#define LOGMAX (16u << 20)

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_PIPE, K_FORK, K_DUP, K_EXEC, K_WAIT, K_FDOPEN, K_OPENDIR, K_READDIR, K_CLOSEDIR,
       K_REMOVE, K_MKDIR, K_GETCWD, K_RANDOM, K_STAT, K_SCHED, K_GC, K_TIME, K_FSYNC, NK };
static const char *kname[NK] = {"open", "read", "write", "close", "pipe", "fork", "dup", "exec", "wait", "fdopen", "opendir", "readdir", "closedir",
       "remove", "mkdir", "getcwd", "random", "stat", "sched", "gc", "time", "fsync"};
enum { T_FREE, T_FILE, T_DIR, T_LNK, T_PIPE, T_TTY, T_CAP };
enum { RUN, BLOCK, ZOMBIE, GONE };

typedef struct { char *name; int ino; uint32_t id; } Ent;
typedef struct { int type, nlink, opens, mode, rd, wr, born; char *data; uint32_t len, cap; Ent *ent; uint32_t nent, centry; } Ino;
typedef struct { int used, ino, flags, refs; uint32_t off; } Ofd;
typedef struct { int state, ppid, status, cwd, nofault, sigpipe, steps; struct { int ofd, cloexec; } fd[MAXFD]; uint32_t cnt[NK]; atomic_int go; int realpid, killsig; } Proc;
typedef struct { int pid, kind; uint32_t n; int v; } Dec;
typedef struct {
    uint64_t seed; int replay; uint32_t rate[NK]; // per million
    int faultmax, faults, steps, stepmax, pipecap, ndec, mdec, cur, np, pidbase, ttyout, dtype, deadlock, gcinv, diskcap, disk, umaskx;
    uint64_t ns, hash; uint32_t fc[NK], switches, blocks, gcruns, gcfreed, gcallocs; uint64_t salt;
    Ino ino[MAXINO]; Ofd ofd[MAXOFD]; Proc proc[MAXP]; Dec *dec, *rep; int nrep;
    char **ops; int nops, opi; char *path;
    char *log; uint32_t nlog; char *brk; int softio; char *linkout; long heapoff; int reported, rootexit, rootreal; const char *report; int bad; uint32_t entid; int ended; const char *why; char *cwd; char rnd[64]; int nrnd, bufsz, gcreuse, cpu, unkdt, wrfail;
} Sys;
static Sys *S;
static int me, on;
#define PID(i) (S->pidbase + (i))
static int bypid(long pid) { for (int i = 0; i < S->np; i++) if (PID(i) == pid) return i; return -1; }

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long pass(long n, long a, long b, long c, long d, long e, long f) { long r = raw(n, a, b, c, d, e, f); if (r < 0) { errno = -r; return -1; } return r; }
static void rawexit(int c) { raw(SYS_exit_group, c, 0, 0, 0, 0, 0); for (;;) ; }
static void *sbrk_(size_t n) { char *p = S->brk; S->brk += (n + 15) & ~15ull; if (S->brk > (char *)S + ARENA) { raw(SYS_write, 2, (long)"simos: arena full\n", 18, 0, 0, 0); rawexit(98); } return p; }
static char *dup_(const char *s) { char *p = sbrk_(strlen(s) + 1); strcpy(p, s); return p; }
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static uint64_t hash4(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return mix(mix(mix(mix(a + 0x9e3779b97f4a7c15ull) ^ b) + 0x7f4a7c15 * c) ^ (d << 1)); }

static void ev(const char *f, ...) {
    va_list a; va_start(a, f);
    char b[4096];
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    if (S->nlog + n + 2 > LOGMAX) return;
    memcpy(S->log + S->nlog, b, n); S->nlog += n; S->log[S->nlog++] = '\n';
}
static void evhex(const char *pre, const char *d, uint32_t n) {
    if (S->nlog + n * 2 + strlen(pre) + 4 > LOGMAX) return;
    strcpy(S->log + S->nlog, pre); S->nlog += strlen(pre);
    for (uint32_t i = 0; i < n; i++) { static const char h[] = "0123456789abcdef"; S->log[S->nlog++] = h[(d[i] >> 4) & 15]; S->log[S->nlog++] = h[d[i] & 15]; }
    S->log[S->nlog++] = '\n';
}

// ---------------------------------------------------------------- decisions
static int decide(int kind, int nalt) {
    Proc *p = &S->proc[me];
    uint32_t n = p->cnt[kind]++;
    int v = 0;
    if (S->replay) { for (int i = 0; i < S->nrep; i++) { Dec *d = &S->rep[i]; if (d->pid == me && d->kind == kind && d->n == n) { v = d->v; break; } } }
    else if (S->rate[kind]) {
        int fault = kind != K_SCHED && kind != K_GC && kind != K_TIME;
        if (fault && (S->faults >= S->faultmax || p->nofault)) return 0;
        uint64_t h = hash4(S->seed, me * 64 + kind, n, 7);
        if (h % 1000000 < S->rate[kind]) v = 1 + (h >> 32) % nalt;
    }
    if (v > nalt && kind != K_SCHED) v = 1 + v % nalt;
    if (v && S->ndec < S->mdec) { S->dec[S->ndec++] = (Dec){me, kind, n, v}; if (kind != K_SCHED && kind != K_GC && kind != K_TIME) ev("FAULT %d %s %d", me, kname[kind], v); if (kind != K_SCHED && kind != K_GC) S->faults++; S->fc[kind]++; }
    return v;
}

// ---------------------------------------------------------------- the token
static void report(const char *end);
static void proc_end(int status);
static void killall(void) {
    for (int i = 0; i < S->np; i++) if (i != me && S->proc[i].realpid && S->proc[i].state != GONE) raw(SYS_kill, S->proc[i].realpid, 9, 0, 0, 0, 0);
    if (S->rootreal && me != 0) raw(SYS_kill, S->rootreal, 9, 0, 0, 0, 0);
}
static void finish(const char *why) {
    report(why);
    S->ended = 1;
    killall();
    for (;;) { long r = raw(SYS_wait4, -1, 0, 0, 0, 0, 0); if (r < 0 && r != -EINTR) break; }
    rawexit(0);
}
static void handover(int q);
static void stop(const char *why) {
    if (me == 0) finish(why);
    S->ended = 1; S->why = why;
    handover(0);
    rawexit(97);
}
static void handover(int q) { S->cur = q; S->switches++; atomic_store(&S->proc[q].go, 1); raw(SYS_futex, (long)&S->proc[q].go, FUTEX_WAKE, 1, 0, 0, 0); }
static void await(void) {
    Proc *p = &S->proc[me];
    while (!atomic_load(&p->go)) raw(SYS_futex, (long)&p->go, FUTEX_WAIT, 0, 0, 0, 0);
    atomic_store(&p->go, 0);
    if (S->ended) { if (me) rawexit(0); finish(S->why); }
    if (p->killsig && p->state < ZOMBIE) { int k = p->killsig; p->killsig = 0; p->state = RUN; proc_end(k); }
}
static void wake_all(void) { for (int i = 0; i < S->np; i++) if (S->proc[i].state == BLOCK) S->proc[i].state = RUN; }
static int ready(int *r) { int n = 0; for (int i = 0; i < S->np; i++) if (i != me && S->proc[i].state == RUN) r[n++] = i; return n; }
static void tick(void) {
    S->steps++; S->proc[me].steps++;
    S->ns += 1000;
    if (S->steps > S->stepmax) stop("no progress");
}
// a scheduling point: somebody else may run first
static void point(int kind) {
    tick();
    S->hash = mix(S->hash ^ (me * 64 + kind));
    int r[MAXP], n = ready(r);
    if (!n) return;
    int v = decide(K_SCHED, n);
    if (v) { int q = r[(v - 1) % n]; handover(q); await(); }
}
static void block_(void) {
    int r[MAXP];
    S->blocks++;
    S->proc[me].state = BLOCK;
    int n = ready(r);
    if (!n) {
        if (S->proc[0].state == GONE) { handover(0); await(); }
        S->deadlock = 1; stop("deadlock");
    }
    int v = decide(K_SCHED, n);
    handover(r[v ? (v - 1) % n : 0]);
    await();
    S->proc[me].state = RUN;
    tick();
}

// ---------------------------------------------------------------- inodes and paths
static int new_ino(int type, int mode) {
    for (int i = 1; i < MAXINO; i++) if (!S->ino[i].type) { memset(&S->ino[i], 0, sizeof(Ino)); S->ino[i].type = type; S->ino[i].mode = mode; return i; }
    return 0;
}
static void put_ino(int i) { Ino *n = &S->ino[i]; if (!n->nlink && !n->opens) { S->disk -= n->type == T_FILE ? n->len : 0; n->type = T_FREE; } }
static int find(int d, const char *name) { Ino *n = &S->ino[d]; for (uint32_t i = 0; i < n->nent; i++) if (!strcmp(n->ent[i].name, name)) return n->ent[i].ino; return 0; }
static void link_(int d, const char *name, int ino) {
    Ino *n = &S->ino[d];
    if (n->nent == n->centry) { n->centry = n->centry ? n->centry * 2 : 8; Ent *e = sbrk_(sizeof(Ent) * n->centry); memcpy(e, n->ent, sizeof(Ent) * n->nent); n->ent = e; }
    Ent x = {dup_(name), ino, (uint32_t)(hash4(S->salt, 3, S->entid++, 0) | 1)};
    // kept in order of a per-entry id, so that listings have an arbitrary but stable order
    uint32_t at = 0;
    while (at < n->nent && n->ent[at].id < x.id) at++;
    while (at < n->nent && n->ent[at].id == x.id) x.id++;
    memmove(n->ent + at + 1, n->ent + at, sizeof(Ent) * (n->nent - at));
    n->ent[at] = x;
    n->nent++;
    S->ino[ino].nlink++;
}
static void unlink_(int d, const char *name) {
    Ino *n = &S->ino[d];
    for (uint32_t i = 0; i < n->nent; i++) if (!strcmp(n->ent[i].name, name)) {
        int t = n->ent[i].ino;
        memmove(n->ent + i, n->ent + i + 1, sizeof(Ent) * (n->nent - i - 1));
        n->nent--;
        S->ino[t].nlink--;
        put_ino(t);
        return;
    }
}
// walks a path; returns the inode (0: the last component does not exist), its parent and name, or -errno
static int walk(int base, const char *path, int follow, int *dir, char *last, int depth) {
    if (depth > 20) return -ELOOP;
    if (!*path) return -ENOENT;
    if (strlen(path) >= PATH_MAX) return -ENAMETOOLONG;
    int cur = *path == '/' ? 1 : base, parent = cur;
    char comp[NAME_MAX + 1];
    const char *p = path;
    if (dir) { *dir = cur; strcpy(last, "."); }
    for (;;) {
        while (*p == '/') p++;
        if (!*p) return cur;
        const char *e = p;
        while (*e && *e != '/') e++;
        if (e - p > NAME_MAX) return -ENAMETOOLONG;
        memcpy(comp, p, e - p); comp[e - p] = 0;
        int slash = *e == '/';
        const char *rest = e;
        while (*rest == '/') rest++;
        int final = !*rest;
        if (S->ino[cur].type != T_DIR) return -ENOTDIR;
        if (!(S->ino[cur].mode & 1)) return -EACCES;
        parent = cur;
        int nx = !strcmp(comp, ".") ? cur : !strcmp(comp, "..") ? -1 : find(cur, comp);
        if (nx == -1) { // ".." : find the parent
            nx = 1;
            for (int i = 1; i < MAXINO; i++) if (S->ino[i].type == T_DIR) for (uint32_t k = 0; k < S->ino[i].nent; k++) if (S->ino[i].ent[k].ino == cur) nx = i;
        }
        if (dir) { *dir = parent; strcpy(last, comp); }
        if (!nx) { if (final) return 0; return -ENOENT; }
        if (S->ino[nx].type == T_LNK && (!final || follow || slash)) {
            char t[PATH_MAX];
            snprintf(t, sizeof t, "%.*s%s", (int)S->ino[nx].len, S->ino[nx].data, final ? "" : "/.");
            int d2; char l2[NAME_MAX + 1];
            int r = walk(parent, t, 1, &d2, l2, depth + 1);
            if (r < 0) return r;
            if (r == 0) { if (dir) { *dir = d2; strcpy(last, l2); } return final ? 0 : -ENOENT; }
            nx = r;
            if (final && dir) { *dir = d2; strcpy(last, l2); }
        }
        if (final && slash && S->ino[nx].type != T_DIR) return -ENOTDIR;
        cur = nx;
        p = rest;
        if (final) return cur;
    }
}
static int at_base(int dirfd) {
    if (dirfd == AT_FDCWD) return S->proc[me].cwd;
    if (dirfd < 0 || dirfd >= MAXFD || !S->proc[me].fd[dirfd].ofd) return -EBADF;
    int i = S->ofd[S->proc[me].fd[dirfd].ofd].ino;
    return S->ino[i].type == T_DIR ? i : -ENOTDIR;
}

// ---------------------------------------------------------------- descriptors
static int new_ofd(int ino, int flags) {
    for (int i = 1; i < MAXOFD; i++) if (!S->ofd[i].used) { S->ofd[i] = (Ofd){1, ino, flags, 0, 0}; S->ino[ino].opens++; return i; }
    return 0;
}
static int new_fd(int ofd, int cloexec, int min) {
    for (int i = min; i < MAXFD; i++) if (!S->proc[me].fd[i].ofd) { S->proc[me].fd[i].ofd = ofd; S->proc[me].fd[i].cloexec = cloexec; S->ofd[ofd].refs++; return i; }
    return -1;
}
static int acc(int f) { return f & O_ACCMODE; }
static void drop_ofd(int o) {
    Ofd *f = &S->ofd[o];
    if (--f->refs > 0) return;
    Ino *n = &S->ino[f->ino];
    if (n->type == T_PIPE) { if (acc(f->flags) == O_RDONLY) n->rd--; else n->wr--; }
    n->opens--;
    put_ino(f->ino);
    f->used = 0;
    wake_all();
}
static int fail(int e) { errno = e; return -1; }
static Ofd *ofd_of(int fd) { if (fd < 0 || fd >= MAXFD || !S->proc[me].fd[fd].ofd) return NULL; return &S->ofd[S->proc[me].fd[fd].ofd]; }
static int pick_errno(int v, const int *t, int n) { return t[(v - 1) % n]; }

static int sim_open(int base, const char *path, int flags) {
    point(K_OPEN);
    static const int er[] = {EMFILE, ENFILE, EIO, EINTR, EACCES, ENOMEM, ENOSPC};
    int v = decide(K_OPEN, flags & O_CREAT ? 7 : 6);
    if (v) return fail(pick_errno(v, er, 7));
    int d; char l[NAME_MAX + 1];
    int i = walk(base, path, !(flags & (O_NOFOLLOW | O_EXCL)), &d, l, 0);
    if (i < 0) return fail(-i);
    if (i == 0) {
        if (!(flags & O_CREAT)) return fail(ENOENT);
        if (!(S->ino[d].mode & 2)) return fail(EACCES);
        i = new_ino(T_FILE, 6);
        S->ino[i].born = PID(me);
        link_(d, l, i);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
        if (S->ino[i].type == T_LNK) return fail(ELOOP);
        if ((flags & O_DIRECTORY) && S->ino[i].type != T_DIR) return fail(ENOTDIR);
        if (S->ino[i].type == T_DIR && acc(flags) != O_RDONLY) return fail(EISDIR);
        int need = acc(flags) == O_RDONLY ? 4 : acc(flags) == O_WRONLY ? 2 : 6;
        if ((S->ino[i].mode & need) != need) return fail(EACCES);
        if ((flags & O_TRUNC) && S->ino[i].type == T_FILE) { S->disk -= S->ino[i].len; S->ino[i].len = 0; }
    }
    int o = new_ofd(i, flags);
    int fd = o ? new_fd(o, !!(flags & O_CLOEXEC), 0) : -1;
    if (fd < 0) { if (o) { S->ofd[o].used = 0; S->ino[i].opens--; put_ino(i); } return fail(EMFILE); }
    return fd;
}
static void pipe_full(Ino *n) { (void)n; }
static ssize_t sim_read(int fd, void *buf, size_t n) {
    point(K_READ);
    Ofd *f = ofd_of(fd);
    if (!f || acc(f->flags) == O_WRONLY) return fail(EBADF);
    Ino *i = &S->ino[f->ino];
    if (i->type == T_DIR) return fail(EISDIR);
    if (!n) return 0;
    int v = decide(K_READ, 8); // 1 EINTR 2 EIO 3.. split
    if (v && v < 3 && S->softio) v += 3;
    if (v == 1) return fail(EINTR);
    if (v == 2) return fail(i->type == T_PIPE ? EINTR : EIO);
    if (v == 3) n = 1;
    else if (v >= 4) { size_t m = n < 4096 ? n : 4096; n = 1 + hash4(S->salt, f->off, v, n) % m; }
    if (i->type == T_PIPE) {
        while (!i->len) {
            if (!i->wr) return 0;
            if (f->flags & O_NONBLOCK) return fail(EAGAIN);
            block_();
        }
        size_t k = n < i->len ? n : i->len;
        memcpy(buf, i->data, k);
        memmove(i->data, i->data + k, i->len - k);
        i->len -= k;
        pipe_full(i);
        wake_all();
        return k;
    }
    size_t k = f->off < i->len ? i->len - f->off : 0;
    if (k > n) k = n;
    memcpy(buf, i->data + f->off, k);
    f->off += k;
    return k;
}
static void grow(Ino *i, size_t n) {
    if (n <= i->cap) return;
    uint32_t c = i->cap ? i->cap : 256;
    while (c < n) c *= 2;
    char *d = sbrk_(c);
    memcpy(d, i->data, i->len);
    i->data = d; i->cap = c;
}
static void sim_die(int sig);
static ssize_t sim_write(int fd, const void *buf, size_t n) {
    point(K_WRITE);
    Ofd *f = ofd_of(fd);
    if (!f || acc(f->flags) == O_RDONLY) return fail(EBADF);
    Ino *i = &S->ino[f->ino];
    if (!n) return 0;
    int v = decide(K_WRITE, 9); // 1 EINTR 2 EIO 3 ENOSPC 4 EDQUOT 5 one byte 6.. split
    if (v && v < 5 && S->softio) v += 5;
    if (v == 1) return fail(EINTR);
    if (v >= 2 && v <= 4 && (i->type == T_FILE || S->wrfail)) { static const int er[] = {EIO, ENOSPC, EDQUOT}; return fail(er[v - 2]); }
    if (v == 5) n = 1;
    else if (v >= 6) { size_t m = n < 4096 ? n : 4096; n = 1 + hash4(S->salt, f->off, v, n) % m; }
    if (i->type == T_PIPE) {
        for (;;) {
            if (!i->rd) {
                if (S->proc[me].sigpipe == 0) sim_die(SIGPIPE);
                return fail(EPIPE);
            }
            size_t room = (size_t)S->pipecap - i->len;
            size_t atomic = S->pipecap < 4096 ? S->pipecap : 4096;
            if (room >= n || (n > atomic && room > 0)) { if (n > room) n = room; break; }
            if (f->flags & O_NONBLOCK) return fail(EAGAIN);
            block_();
        }
        grow(i, i->len + n);
        memcpy(i->data + i->len, buf, n);
        i->len += n;
        wake_all();
        return n;
    }
    if (f->flags & O_APPEND) f->off = i->len;
    if (i->type == T_FILE && S->diskcap >= 0) {
        long add = (long)f->off + (long)n - (long)i->len;
        if (add > 0 && S->disk + add > S->diskcap) { long k = (long)n - (S->disk + add - S->diskcap); if (k <= 0) { S->fc[K_FSYNC]++; return fail(ENOSPC); } n = k; }
    }
    if (f->off + n > i->len) { grow(i, f->off + n); if (f->off > i->len) memset(i->data + i->len, 0, f->off - i->len); S->disk += i->type == T_FILE ? f->off + n - i->len : 0; i->len = f->off + n; }
    memcpy(i->data + f->off, buf, n);
    f->off += n;
    return n;
}
static int sim_close(int fd) {
    point(K_CLOSE);
    Ofd *f = ofd_of(fd);
    if (!f) { S->bad++; ev("BADCLOSE %d %d", me, fd); return fail(EBADF); }
    int wr = acc(f->flags) != O_RDONLY && S->ino[f->ino].type == T_FILE;
    int o = S->proc[me].fd[fd].ofd;
    S->proc[me].fd[fd].ofd = 0;
    int v = decide(K_CLOSE, 3);
    drop_ofd(o);
    if (v == 1) return fail(EINTR); // the descriptor is gone all the same, as on Linux
    if (v >= 2 && wr) return fail(v == 2 ? EIO : ENOSPC);
    return 0;
}

// ---------------------------------------------------------------- ending
static void proc_end(int status) {
    Proc *p = &S->proc[me];
    int openfds = 0;
    for (int i = 0; i < MAXFD; i++) if (p->fd[i].ofd) openfds++;
    ev("EXIT %d %d %d", me, status, openfds);
    for (int i = 0; i < MAXFD; i++) if (p->fd[i].ofd) { int o = p->fd[i].ofd; p->fd[i].ofd = 0; drop_ofd(o); }
    for (int i = 0; i < S->np; i++) if (S->proc[i].ppid == me && S->proc[i].state != GONE) {
        if (me == 0) ev("ORPHAN %d %s", i, S->proc[i].state == ZOMBIE ? "zombie" : "alive");
        S->proc[i].ppid = -1;
        if (S->proc[i].state == ZOMBIE) S->proc[i].state = GONE;
    }
    p->status = status;
    p->state = p->ppid < 0 ? GONE : ZOMBIE;
    wake_all();
    int r[MAXP], n = ready(r);
    if (me == 0) {
        p->state = GONE;
        S->rootexit = status;
        // the others run on until they end
        while (n) { handover(r[0]); await(); n = ready(r); }
        for (int i = 1; i < S->np; i++) if (S->proc[i].state < ZOMBIE) ev("STUCK %d", i);
        finish("end");
    }
    int alive = 0;
    for (int i = 1; i < S->np; i++) if (i != me && S->proc[i].state < ZOMBIE) alive++;
    if (!n) {
        if (!alive && S->proc[0].state == GONE) { S->proc[me].realpid = 0; handover(0); rawexit(0); }
        S->deadlock = 1; stop("deadlock");
    }
    int v = decide(K_SCHED, n);
    S->proc[me].realpid = 0;
    handover(r[v ? (v - 1) % n : 0]);
    rawexit(0);
}
static void sim_die(int sig) { proc_end(sig); }

static void tree(int d, const char *at) {
    Ino *n = &S->ino[d];
    for (uint32_t i = 0; i < n->nent; i++) {
        char p[PATH_MAX];
        snprintf(p, sizeof p, "%s/%s", at, n->ent[i].name);
        Ino *x = &S->ino[n->ent[i].ino];
        evhex(x->type == T_DIR ? "FS dir " : x->type == T_LNK ? "FS lnk " : "FS file ", p, strlen(p));
        if (x->type == T_DIR) tree(n->ent[i].ino, p);
        else evhex("= ", x->data, x->len);
    }
}
static void report(const char *end) {
    if (S->reported) return;
    S->reported = 1;
    tree(1, "");
    for (int i = 1; i < 3; i++) { int ino = i == 1 ? 2 : 3; evhex(i == 1 ? "OUT " : "ERR ", S->ino[ino].data, S->ino[ino].len); }
    for (int i = 0; i < S->ndec; i++) ev("DEC %d %s %u %d", S->dec[i].pid, kname[S->dec[i].kind], S->dec[i].n, S->dec[i].v);
    ev("STAT steps=%d switches=%u blocks=%u procs=%d ns=%llu hash=%016llx gcallocs=%u gcruns=%u gcfreed=%u bad=%d ops=%d", S->steps, S->switches, S->blocks, S->np,
       (unsigned long long)S->ns, (unsigned long long)S->hash, S->gcallocs, S->gcruns, S->gcfreed, S->bad, S->opi);
    for (int k = 0; k < NK; k++) if (S->fc[k]) ev("FC %s %u", kname[k], S->fc[k]);
    ev("END %s %d", end, S->rootexit);
    int fd = raw(SYS_openat, AT_FDCWD, (long)S->report, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
    uint32_t at = 0;
    while (at < S->nlog) { long k = raw(SYS_write, fd, (long)S->log + at, S->nlog - at, 0, 0, 0); if (k <= 0) break; at += k; }
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
}
static void crashed(int sig) {
    ev("CRASH %d %d", me, sig);
    proc_end(sig);
}

// ---------------------------------------------------------------- programs that can be executed
static void say(int fd, const char *b, size_t n) { while (n) { ssize_t k = sim_write(fd, b, n); if (k < 0) { if (errno == EINTR) continue; proc_end(1 << 8); } b += k; n -= k; } }
static void run_program(const char *script, char *const argv[]) {
    char buf[512];
    // steps separated by spaces
    char *s = dup_(script);
    for (char *t = strtok(s, " \n"); t; t = strtok(NULL, " \n")) {
        int n = atoi(t + 1);
        switch (*t) {
        case 'E': proc_end((n & 255) << 8); break;
        case 'K': proc_end(n); break;
        case 'O': case 'R': case 'U': for (int i = 0; i < n;) { int k = 0; while (k < 256 && i < n) buf[k++] = (*t == 'O' ? 'a' : 'A') + i++ % 26; say(*t == 'R' ? 2 : 1, buf, k); } break;
        case 'I': for (;;) { ssize_t k = sim_read(0, buf, sizeof buf); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; say(1, buf, k); } break;
        case 'C': for (;;) { ssize_t k = sim_read(0, buf, sizeof buf); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; } break;
        case 'A': for (int i = 0; argv[i]; i++) { say(1, argv[i], strlen(argv[i])); say(1, "\n", 1); } break;
        case 'X': if (n >= 0 && n < MAXFD && ofd_of(n)) sim_close(n); break;
        case 'S': for (int i = 0; i < n; i++) { int r[MAXP]; int m = ready(r); tick(); if (m) { handover(r[i % m]); await(); } } break;
        case 'L': { // a linker: cc ... -o OUT INPUT...: reads its inputs, writes an executable that says which
            const char *out = NULL; uint64_t h = 1469598103934665603ull; int bad = 0, objs = 0; uint32_t total = 0;
            for (int i = 1; argv[i]; i++) {
                if (!strcmp(argv[i], "-o") && argv[i + 1]) { out = argv[++i]; continue; }
                int l = strlen(argv[i]);
                if (argv[i][0] == '-') continue;
                if (l > 2 && (!strcmp(argv[i] + l - 2, ".o"))) {
                    int x = walk(S->proc[me].cwd, argv[i], 1, NULL, NULL, 0);
                    if (x <= 0 || S->ino[x].type != T_FILE || S->ino[x].len < 64) { bad = 1; continue; }
                    for (uint32_t k = 0; k < S->ino[x].len; k++) h = (h ^ (uint8_t)S->ino[x].data[k]) * 1099511628211ull;
                    objs++; total += S->ino[x].len;
                    ev("LINK %d %s %u", me, argv[i], S->ino[x].len);
                }
            }
            if (n) { ev("LINKFAIL %d %d", me, n); proc_end(n < 100 ? n << 8 : n - 100); }
            if (bad || !out || !objs) { ev("LINKBAD %d", me); say(2, "linker: bad input\n", 18); proc_end(1 << 8); }
            int d; char l[NAME_MAX + 1];
            int x = walk(S->proc[me].cwd, out, 1, &d, l, 0);
            if (x < 0 || (x && S->ino[x].type != T_FILE)) { say(2, "linker: cannot open output\n", 27); proc_end(1 << 8); }
            if (!x) { x = new_ino(T_FILE, 7); link_(d, l, x); }
            S->ino[x].mode = 7;
            int k = snprintf(buf, sizeof buf, "#!sim P%llx %s", (unsigned long long)h, S->linkout ? S->linkout : "E0");
            grow(&S->ino[x], k); memcpy(S->ino[x].data, buf, k); S->ino[x].len = k;
            ev("LINKED %d %s %d %u %llx", me, out, objs, total, (unsigned long long)h);
            break;
        }
        case 'P': say(1, t + 1, strlen(t + 1)); say(1, "\n", 1); break;
        default: break;
        }
    }
    proc_end(0);
}
static int try_exec(const char *path, char *const argv[]) {
    int i = walk(S->proc[me].cwd, path, 1, NULL, NULL, 0);
    if (i < 0) return -i;
    if (!i) return ENOENT;
    Ino *n = &S->ino[i];
    if (n->type != T_FILE || !(n->mode & 1)) return EACCES;
    if (n->len < 6 || memcmp(n->data, "#!sim ", 6)) return ENOEXEC;
    Proc *p = &S->proc[me];
    for (int k = 0; k < MAXFD; k++) if (p->fd[k].ofd && p->fd[k].cloexec) { int o = p->fd[k].ofd; p->fd[k].ofd = 0; drop_ofd(o); }
    char fds[512] = ""; int l = 0;
    for (int k = 0; k < MAXFD && l < 480; k++) if (p->fd[k].ofd) l += snprintf(fds + l, sizeof fds - l, "%s%d=%d%s", l ? "," : "", k, S->ofd[p->fd[k].ofd].ino, acc(S->ofd[p->fd[k].ofd].flags) == O_RDONLY ? "r" : "w");
    ev("EXEC %d %s %s sigpipe=%d", me, path, fds, p->sigpipe);
    for (int k = 0; argv[k]; k++) { char pre[32]; snprintf(pre, sizeof pre, "ARG %d ", me); evhex(pre, argv[k], strlen(argv[k])); }
    if (p->sigpipe == 2) p->sigpipe = 0;
    p->nofault = 1;
    char *s = sbrk_(n->len + 1);
    memcpy(s, n->data + 6, n->len - 6); s[n->len - 6] = 0;
    run_program(s, argv);
    return 0;
}
static int sim_exec(const char *file, char *const argv[], int search) {
    point(K_EXEC);
    static const int er[] = {ENOMEM, E2BIG, EACCES, EIO, ETXTBSY, EMFILE, ENFILE};
    int v = decide(K_EXEC, 7);
    if (v) return fail(pick_errno(v, er, 7));
    if (!*file) return fail(ENOENT);
    if (!search || strchr(file, '/')) return fail(try_exec(file, argv));
    int got = ENOENT;
    char *p = S->path;
    while (p && *p) {
        char b[PATH_MAX]; int k = strcspn(p, ":");
        snprintf(b, sizeof b, "%.*s/%s", k, p, file);
        int e = try_exec(b, argv);
        if (e == EACCES) got = EACCES;
        else if (e != ENOENT && e != ENOTDIR) return fail(e);
        p += k; if (*p == ':') p++;
    }
    return fail(got);
}

// ---------------------------------------------------------------- entry points: descriptors and processes
int open(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    if (!on) return pass(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
    return sim_open(S->proc[me].cwd, path, flags);
}
int open64(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    return open(path, flags, mode);
}
int openat(int dir, const char *path, int flags, ...) {
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    if (!on) return pass(SYS_openat, dir, (long)path, flags, mode, 0, 0);
    int b = at_base(dir);
    if (b < 0) return fail(-b);
    return sim_open(b, path, flags);
}
int creat(const char *path, mode_t m) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { return on ? sim_read(fd, b, n) : pass(SYS_read, fd, (long)b, n, 0, 0, 0); }
ssize_t write(int fd, const void *b, size_t n) { return on ? sim_write(fd, b, n) : pass(SYS_write, fd, (long)b, n, 0, 0, 0); }
int close(int fd) { return on ? sim_close(fd) : (int)pass(SYS_close, fd, 0, 0, 0, 0, 0); }
int pipe2(int p[2], int flags) {
    if (!on) return pass(SYS_pipe2, (long)p, flags, 0, 0, 0, 0);
    point(K_PIPE);
    static const int er[] = {EMFILE, ENFILE};
    int v = decide(K_PIPE, 2);
    if (v) return fail(er[v - 1]);
    int i = new_ino(T_PIPE, 7);
    Ino *n = &S->ino[i];
    int a = new_ofd(i, O_RDONLY | (flags & O_NONBLOCK)), b = new_ofd(i, O_WRONLY | (flags & O_NONBLOCK));
    n->rd = n->wr = 1; n->born = me;
    p[0] = new_fd(a, !!(flags & O_CLOEXEC), 0);
    p[1] = new_fd(b, !!(flags & O_CLOEXEC), 0);
    return 0;
}
int pipe(int p[2]) { return on ? pipe2(p, 0) : (int)pass(SYS_pipe2, (long)p, 0, 0, 0, 0, 0); }
static pid_t (*real_fork)(void);
pid_t fork(void) {
    if (!on) { if (!real_fork) real_fork = dlsym(RTLD_NEXT, "fork"); return real_fork(); }
    point(K_FORK);
    int v = decide(K_FORK, 2);
    if (v) return fail(v == 1 ? EAGAIN : ENOMEM);
    if (S->np >= MAXP) return fail(EAGAIN);
    int c = S->np++;
    Proc *p = &S->proc[c], *q = &S->proc[me];
    memset(p, 0, sizeof *p);
    p->state = RUN; p->ppid = me; p->cwd = q->cwd; p->sigpipe = q->sigpipe;
    memcpy(p->fd, q->fd, sizeof p->fd);
    for (int i = 0; i < MAXFD; i++) if (p->fd[i].ofd) S->ofd[p->fd[i].ofd].refs++;
    ev("FORK %d %d", me, c);
    int r = real_fork();
    if (r < 0) { raw(SYS_write, 2, (long)"simos: fork failed\n", 19, 0, 0, 0); rawexit(98); }
    if (r == 0) { me = c; await(); return 0; }
    p->realpid = r;
    point(K_FORK);
    return PID(c);
}
pid_t vfork(void) { return fork(); }
int dup(int fd) {
    if (!on) return pass(SYS_dup, fd, 0, 0, 0, 0, 0);
    point(K_DUP);
    if (!ofd_of(fd)) return fail(EBADF);
    if (decide(K_DUP, 1)) return fail(EMFILE);
    int r = new_fd(S->proc[me].fd[fd].ofd, 0, 0);
    return r < 0 ? fail(EMFILE) : r;
}
int dup3(int a, int b, int flags) {
    if (!on) return pass(SYS_dup3, a, b, flags, 0, 0, 0);
    point(K_DUP);
    if (!ofd_of(a) || b < 0 || b >= MAXFD) return fail(EBADF);
    if (a == b) return fail(EINVAL);
    static const int er[] = {EINTR, EBUSY, EMFILE};
    int v = decide(K_DUP, 3);
    if (v) return fail(er[v - 1]);
    int o = S->proc[me].fd[a].ofd;
    S->ofd[o].refs++;
    if (ofd_of(b)) drop_ofd(S->proc[me].fd[b].ofd);
    S->proc[me].fd[b].ofd = o;
    S->proc[me].fd[b].cloexec = !!(flags & O_CLOEXEC);
    return b;
}
int dup2(int a, int b) {
    if (!on) return pass(SYS_dup2, a, b, 0, 0, 0, 0);
    if (a == b) return ofd_of(a) ? b : fail(EBADF);
    return dup3(a, b, 0);
}
int fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    if (!on) return pass(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (!ofd_of(fd)) return fail(EBADF);
    switch (cmd) {
    case F_GETFD: return S->proc[me].fd[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: S->proc[me].fd[fd].cloexec = !!(arg & FD_CLOEXEC); return 0;
    case F_GETFL: return ofd_of(fd)->flags;
    case F_SETFL: ofd_of(fd)->flags = (ofd_of(fd)->flags & O_ACCMODE) | (arg & ~O_ACCMODE); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int r = new_fd(S->proc[me].fd[fd].ofd, cmd == F_DUPFD_CLOEXEC, arg); return r < 0 ? fail(EMFILE) : r; }
    default: return fail(EINVAL);
    }
}
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
pid_t waitpid(pid_t pid, int *st, int opt) {
    if (!on) return pass(SYS_wait4, pid, (long)st, opt, 0, 0, 0);
    point(K_WAIT);
    for (;;) {
        int any = 0;
        for (int i = 0; i < S->np; i++) {
            Proc *p = &S->proc[i];
            if (p->ppid != me || p->state == GONE || (pid > 0 && PID(i) != pid)) continue;
            any = 1;
            if (p->state == ZOMBIE) {
                p->state = GONE;
                if (st) *st = p->status;
                return PID(i);
            }
        }
        if (!any) return fail(ECHILD);
        if (opt & WNOHANG) return 0;
        if (decide(K_WAIT, 1)) return fail(EINTR);
        block_();
    }
}
pid_t wait4(pid_t pid, int *st, int opt, struct rusage *u) { if (!on) return pass(SYS_wait4, pid, (long)st, opt, (long)u, 0, 0); return waitpid(pid, st, opt); }
pid_t wait(int *st) { return waitpid(-1, st, 0); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
    if (!on) return pass(SYS_waitid, t, id, (long)si, opt, 0, 0);
    if (opt & WNOWAIT) return fail(EINVAL);
    int st; pid_t p = waitpid(t == P_PID ? (pid_t)id : -1, &st, opt & WNOHANG);
    if (p < 0) return -1;
    if (si) { memset(si, 0, sizeof *si); if (p) { si->si_pid = p; si->si_signo = SIGCHLD; si->si_code = WIFEXITED(st) ? CLD_EXITED : CLD_KILLED; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st); } }
    return 0;
}
int kill(pid_t pid, int sig) {
    if (!on) return pass(SYS_kill, pid, sig, 0, 0, 0, 0);
    int i = bypid(pid);
    if (i < 0 || S->proc[i].state == GONE) return fail(ESRCH);
    if (!sig || S->proc[i].state == ZOMBIE) return 0;
    if (i == me) sim_die(sig);
    S->proc[i].killsig = sig;
    if (S->proc[i].state == BLOCK) S->proc[i].state = RUN;
    return 0;
}
int raise(int sig) { if (!on) return pass(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0, 0); sim_die(sig); return 0; }
pid_t getpid(void) { return on ? PID(me) : raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t getppid(void) { return on ? (S->proc[me].ppid < 0 ? 1 : PID(S->proc[me].ppid)) : raw(SYS_getppid, 0, 0, 0, 0, 0, 0); }
int execvp(const char *f, char *const argv[]) { if (!on) { errno = ENOSYS; return -1; } return sim_exec(f, argv, 1); }
int execvpe(const char *f, char *const argv[], char *const e[]) { (void)e; return execvp(f, argv); }
int execv(const char *f, char *const argv[]) { if (!on) { errno = ENOSYS; return -1; } return sim_exec(f, argv, 0); }
int execve(const char *f, char *const argv[], char *const e[]) { if (!on) return pass(SYS_execve, (long)f, (long)argv, (long)e, 0, 0, 0); return sim_exec(f, argv, 0); }
void _exit(int c) { if (!on) rawexit(c); proc_end((c & 255) << 8); for (;;) ; }
void _Exit(int c) { _exit(c); }
void quick_exit(int c) { _exit(c); }
void abort(void) { if (!on) { raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGABRT, 0, 0, 0, 0); rawexit(134); } ev("ABORT %d", me); proc_end(SIGABRT); for (;;) ; }
static void at_exit(int code, void *p) { (void)p; if (!on) return; fflush(NULL); proc_end((code & 255) << 8); }
typedef void (*sh)(int);
sh signal(int sig, sh h) {
    if (!on) return SIG_DFL;
    if (sig == SIGPIPE) { int o = S->proc[me].sigpipe; S->proc[me].sigpipe = h == SIG_DFL ? 0 : h == SIG_IGN ? 1 : 2; return o == 1 ? SIG_IGN : SIG_DFL; }
    return SIG_DFL;
}
int sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
    if (!on) { // the kernel's own layout: only used before the simulation starts
        static int (*real)(int, const struct sigaction *, struct sigaction *);
        if (!real) real = dlsym(RTLD_NEXT, "sigaction");
        return real(sig, n, o);
    }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = sig == SIGPIPE && S->proc[me].sigpipe == 1 ? SIG_IGN : SIG_DFL; }
    if (n && sig == SIGPIPE) S->proc[me].sigpipe = n->sa_handler == SIG_DFL ? 0 : n->sa_handler == SIG_IGN ? 1 : 2;
    return 0;
}

// ---------------------------------------------------------------- files by name
static int where(int c, char *t) { // the physical path of a directory
    char u[PATH_MAX];
    *t = 0;
    while (c != 1) {
        int f = 0;
        for (int i = 1; i < MAXINO && !f; i++) if (S->ino[i].type == T_DIR) for (uint32_t k = 0; k < S->ino[i].nent; k++) if (S->ino[i].ent[k].ino == c) {
            if (snprintf(u, sizeof u, "/%s%s", S->ino[i].ent[k].name, t) >= (int)sizeof u) return ENAMETOOLONG;
            strcpy(t, u); f = i; break;
        }
        if (!f) return ENOENT;
        c = f;
    }
    return 0;
}
static int gone_parent(int r, int d) { return r < 0 ? -r : !(S->ino[d].mode & 2) ? EACCES : 0; }
static int sim_remove(int base, const char *path, int what) { // 1 unlink, 2 rmdir, 3 either
    point(K_REMOVE);
    static const int er[] = {EIO, EBUSY, EACCES, EPERM, EROFS};
    int v = decide(K_REMOVE, 5);
    if (v) return fail(er[v - 1]);
    int d; char l[NAME_MAX + 1];
    int i = walk(base, path, 0, &d, l, 0);
    int e = gone_parent(i, d);
    if (e) return fail(e);
    if (!i) return fail(ENOENT);
    if (S->ino[i].type == T_DIR) {
        if (what == 1) return fail(EISDIR);
        if (!strcmp(l, ".")) return fail(EINVAL);
        if (!strcmp(l, "..")) return fail(ENOTEMPTY);
        if (S->ino[i].nent) return fail(ENOTEMPTY);
        if (i == 1) return fail(EBUSY);
    } else if (what == 2) return fail(ENOTDIR);
    { char t[PATH_MAX], pre[32]; where(d, t); strncat(t, "/", sizeof t - strlen(t) - 1); strncat(t, l, sizeof t - strlen(t) - 1); snprintf(pre, sizeof pre, "REMOVED %d ", me); evhex(pre, t, strlen(t)); }
    unlink_(d, l);
    return 0;
}
int remove(const char *p) { static int (*real)(const char *); if (!on) { if (!real) real = dlsym(RTLD_NEXT, "remove"); return real(p); } return sim_remove(S->proc[me].cwd, p, 3); }
int unlink(const char *p) { return on ? sim_remove(S->proc[me].cwd, p, 1) : (int)pass(SYS_unlink, (long)p, 0, 0, 0, 0, 0); }
int rmdir(const char *p) { return on ? sim_remove(S->proc[me].cwd, p, 2) : (int)pass(SYS_rmdir, (long)p, 0, 0, 0, 0, 0); }
int unlinkat(int d, const char *p, int fl) {
    if (!on) return pass(SYS_unlinkat, d, (long)p, fl, 0, 0, 0);
    int b = at_base(d);
    return b < 0 ? fail(-b) : sim_remove(b, p, fl & AT_REMOVEDIR ? 2 : 1);
}
int mkdir(const char *p, mode_t m) {
    if (!on) return pass(SYS_mkdir, (long)p, m, 0, 0, 0, 0);
    (void)m;
    point(K_MKDIR);
    static const int er[] = {EIO, ENOSPC, EACCES, EROFS};
    int v = decide(K_MKDIR, 4);
    if (v) return fail(er[v - 1]);
    int d; char l[NAME_MAX + 1];
    int i = walk(S->proc[me].cwd, p, 0, &d, l, 0);
    if (i < 0) return fail(-i);
    if (i) return fail(EEXIST);
    if (!(S->ino[d].mode & 2)) return fail(EACCES);
    i = new_ino(T_DIR, 7);
    link_(d, l, i);
    return 0;
}
int rename(const char *a, const char *b) {
    if (!on) return pass(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
    point(K_REMOVE);
    if (decide(K_REMOVE, 1)) return fail(EIO);
    int d, d2; char l[NAME_MAX + 1], l2[NAME_MAX + 1];
    int i = walk(S->proc[me].cwd, a, 0, &d, l, 0);
    if (i <= 0) return fail(i ? -i : ENOENT);
    int j = walk(S->proc[me].cwd, b, 0, &d2, l2, 0);
    if (j < 0) return fail(-j);
    if (j == i) return 0;
    if (j && S->ino[j].type == T_DIR && S->ino[j].nent) return fail(ENOTEMPTY);
    if (j) unlink_(d2, l2);
    link_(d2, l2, i);
    unlink_(d, l);
    return 0;
}
int symlink(const char *t, const char *p) {
    if (!on) return pass(SYS_symlink, (long)t, (long)p, 0, 0, 0, 0);
    int d; char l[NAME_MAX + 1];
    int i = walk(S->proc[me].cwd, p, 0, &d, l, 0);
    if (i) return fail(i < 0 ? -i : EEXIST);
    i = new_ino(T_LNK, 7);
    S->ino[i].data = dup_(t); S->ino[i].len = strlen(t);
    link_(d, l, i);
    return 0;
}
ssize_t readlink(const char *p, char *b, size_t n) {
    if (!on) return pass(SYS_readlink, (long)p, (long)b, n, 0, 0, 0);
    int i = walk(S->proc[me].cwd, p, 0, NULL, NULL, 0);
    if (i <= 0) return fail(i ? -i : ENOENT);
    if (S->ino[i].type != T_LNK) return fail(EINVAL);
    if (n > S->ino[i].len) n = S->ino[i].len;
    memcpy(b, S->ino[i].data, n);
    return n;
}
static void fill(int i, struct stat *st) {
    memset(st, 0, sizeof *st);
    Ino *n = &S->ino[i];
    st->st_ino = i; st->st_dev = 1; st->st_nlink = n->nlink; st->st_size = n->len; st->st_blksize = 4096; st->st_blocks = (n->len + 511) / 512;
    st->st_mode = (n->type == T_DIR ? S_IFDIR : n->type == T_LNK ? S_IFLNK : n->type == T_PIPE ? S_IFIFO : n->type == T_TTY ? S_IFCHR : S_IFREG) | ((n->mode & 7) * 0111);
}
static int sim_stat(int base, const char *p, struct stat *st, int follow) {
    point(K_STAT);
    static const int er[] = {EIO, EACCES, ENOMEM};
    int v = decide(K_STAT, 3);
    if (v) return fail(er[v - 1]);
    int d; char l[NAME_MAX + 1];
    int i = walk(base, p, follow, &d, l, 0);
    if (i <= 0) return fail(i ? -i : ENOENT);
    fill(i, st);
    return 0;
}
int stat(const char *p, struct stat *st) { return on ? sim_stat(S->proc[me].cwd, p, st, 1) : (int)pass(SYS_stat, (long)p, (long)st, 0, 0, 0, 0); }
int lstat(const char *p, struct stat *st) { return on ? sim_stat(S->proc[me].cwd, p, st, 0) : (int)pass(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0); }
int fstat(int fd, struct stat *st) {
    if (!on) return pass(SYS_fstat, fd, (long)st, 0, 0, 0, 0);
    Ofd *f = ofd_of(fd);
    if (!f) return fail(EBADF);
    fill(f->ino, st);
    return 0;
}
int fstatat(int d, const char *p, struct stat *st, int fl) {
    if (!on) return pass(SYS_newfstatat, d, (long)p, (long)st, fl, 0, 0);
    if (!*p && (fl & AT_EMPTY_PATH)) return fstat(d, st);
    int b = at_base(d);
    return b < 0 ? fail(-b) : sim_stat(b, p, st, !(fl & AT_SYMLINK_NOFOLLOW));
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int access(const char *p, int m) {
    if (!on) return pass(SYS_access, (long)p, m, 0, 0, 0, 0);
    struct stat st;
    if (stat(p, &st)) return -1;
    if (m & ~(st.st_mode & 7)) return fail(EACCES);
    return 0;
}
int chmod(const char *p, mode_t m) {
    if (!on) return pass(SYS_chmod, (long)p, m, 0, 0, 0, 0);
    int i = walk(S->proc[me].cwd, p, 1, NULL, NULL, 0);
    if (i <= 0) return fail(i ? -i : ENOENT);
    S->ino[i].mode = (m >> 6) & 7;
    return 0;
}
char *getcwd(char *b, size_t n) {
    if (!on) { char t[PATH_MAX]; if (pass(SYS_getcwd, (long)t, sizeof t, 0, 0, 0, 0) < 0) return NULL; if (!b) return strdup(t); if (strlen(t) >= n) { errno = ERANGE; return NULL; } return strcpy(b, t); }
    point(K_GETCWD);
    static const int er[] = {ENOENT, EACCES, ENOMEM};
    int v = decide(K_GETCWD, 3);
    if (v) { errno = er[v - 1]; return NULL; }
    char t[PATH_MAX];
    int e = where(S->proc[me].cwd, t);
    if (e) { errno = e; return NULL; }
    if (!*t) strcpy(t, "/");
    if (!b) return strdup(t);
    if (strlen(t) >= n) { errno = ERANGE; return NULL; }
    return strcpy(b, t);
}
int chdir(const char *p) {
    if (!on) return pass(SYS_chdir, (long)p, 0, 0, 0, 0, 0);
    int i = walk(S->proc[me].cwd, p, 1, NULL, NULL, 0);
    if (i <= 0) return fail(i ? -i : ENOENT);
    if (S->ino[i].type != T_DIR) return fail(ENOTDIR);
    S->proc[me].cwd = i;
    return 0;
}
off_t lseek(int fd, off_t o, int w) {
    if (!on) return pass(SYS_lseek, fd, o, w, 0, 0, 0);
    Ofd *f = ofd_of(fd);
    if (!f) return fail(EBADF);
    if (S->ino[f->ino].type != T_FILE) return fail(ESPIPE);
    long n = w == SEEK_SET ? o : w == SEEK_CUR ? (long)f->off + o : (long)S->ino[f->ino].len + o;
    if (n < 0) return fail(EINVAL);
    f->off = n;
    return n;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) {
    if (!on) return pass(SYS_ftruncate, fd, n, 0, 0, 0, 0);
    Ofd *f = ofd_of(fd);
    if (!f) return fail(EBADF);
    Ino *i = &S->ino[f->ino];
    grow(i, n);
    if (n > i->len) memset(i->data + i->len, 0, n - i->len);
    i->len = n;
    return 0;
}
int fsync(int fd) {
    if (!on) return pass(SYS_fsync, fd, 0, 0, 0, 0, 0);
    point(K_FSYNC);
    if (!ofd_of(fd)) return fail(EBADF);
    if (decide(K_FSYNC, 1)) return fail(EIO);
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int isatty(int fd) { if (!on) return 0; Ofd *f = ofd_of(fd); if (!f) return fail(EBADF), 0; if (S->ino[f->ino].type == T_TTY) return 1; errno = ENOTTY; return 0; }

// ---------------------------------------------------------------- directories
typedef struct { int magic, fd, ino; uint32_t last; int dots, calls; struct dirent ent; } SDir;
DIR *opendir(const char *p) {
    if (!on) { static DIR *(*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "opendir"); return real(p); }
    point(K_OPENDIR);
    static const int er[] = {EMFILE, ENFILE, EACCES, ENOMEM, EIO};
    int v = decide(K_OPENDIR, 5);
    if (v) { errno = er[v - 1]; return NULL; }
    int i = walk(S->proc[me].cwd, p, 1, NULL, NULL, 0);
    if (i <= 0) { errno = i ? -i : ENOENT; return NULL; }
    if (S->ino[i].type != T_DIR) { errno = ENOTDIR; return NULL; }
    if (!(S->ino[i].mode & 4)) { errno = EACCES; return NULL; }
    int o = new_ofd(i, O_RDONLY | O_DIRECTORY), fd = o ? new_fd(o, 1, 0) : -1;
    if (fd < 0) { errno = EMFILE; return NULL; }
    SDir *d = calloc(1, sizeof *d);
    d->magic = 0x51d; d->fd = fd; d->ino = i;
    return (DIR *)d;
}
DIR *fdopendir(int fd) {
    if (!on) { static DIR *(*real)(int); if (!real) real = dlsym(RTLD_NEXT, "fdopendir"); return real(fd); }
    Ofd *f = ofd_of(fd);
    if (!f) { errno = EBADF; return NULL; }
    if (S->ino[f->ino].type != T_DIR) { errno = ENOTDIR; return NULL; }
    SDir *d = calloc(1, sizeof *d);
    d->magic = 0x51d; d->fd = fd; d->ino = f->ino;
    return (DIR *)d;
}
struct dirent *readdir(DIR *dp) {
    if (!on) { static struct dirent *(*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "readdir"); return real(dp); }
    SDir *d = (SDir *)dp;
    if (d->magic != 0x51d) { ev("BADDIR %d", me); S->bad++; errno = EBADF; return NULL; }
    point(K_READDIR);
    static const int er[] = {EIO, EINTR, EOVERFLOW};
    int v = decide(K_READDIR, 3);
    if (v) { errno = er[v - 1]; return NULL; }
    Ino *n = &S->ino[d->ino];
    memset(&d->ent, 0, sizeof d->ent);
    int c = d->calls++;
    int dotpos = S->salt % 4; // "." and ".." come at places of the seed's choosing
    if (d->dots < 2 && (c >= dotpos || d->last == ~0u)) { strcpy(d->ent.d_name, d->dots++ ? ".." : "."); d->ent.d_type = S->unkdt ? DT_UNKNOWN : DT_DIR; d->ent.d_ino = 1; return &d->ent; }
    for (uint32_t k = 0; k < n->nent; k++) if (n->ent[k].id > d->last) {
        d->last = n->ent[k].id;
        strcpy(d->ent.d_name, n->ent[k].name);
        d->ent.d_ino = n->ent[k].ino;
        int t = S->ino[n->ent[k].ino].type;
        d->ent.d_type = S->unkdt ? DT_UNKNOWN : t == T_DIR ? DT_DIR : t == T_LNK ? DT_LNK : DT_REG;
        d->ent.d_reclen = sizeof d->ent;
        return &d->ent;
    }
    if (d->dots < 2) { strcpy(d->ent.d_name, d->dots++ ? ".." : "."); d->ent.d_type = S->unkdt ? DT_UNKNOWN : DT_DIR; return &d->ent; }
    return NULL;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *dp) {
    if (!on) { static int (*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "closedir"); return real(dp); }
    SDir *d = (SDir *)dp;
    if (d->magic != 0x51d) { ev("BADDIR %d", me); S->bad++; return fail(EBADF); }
    d->magic = 0;
    int fd = d->fd;
    point(K_CLOSEDIR);
    if (ofd_of(fd)) { drop_ofd(S->proc[me].fd[fd].ofd); S->proc[me].fd[fd].ofd = 0; }
    free(d);
    if (decide(K_CLOSEDIR, 1)) return fail(EINTR);
    return 0;
}
int dirfd(DIR *dp) { if (!on) { static int (*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "dirfd"); return real(dp); } return ((SDir *)dp)->fd; }

// ---------------------------------------------------------------- stdio over the simulated descriptors
typedef struct { int fd; FILE *f; } Ck;
static Ck cks[512];
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((Ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) { ssize_t k = sim_write(((Ck *)c)->fd, b + done, n - done); if (k < 0) break; done += k; }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w) { off_t r = lseek(((Ck *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int fd = ((Ck *)c)->fd; ((Ck *)c)->f = NULL; return sim_close(fd); }
static FILE *stream(int fd, const char *mode, int rd, int wr) {
    Ck *k = NULL;
    for (int i = 0; i < 512; i++) if (!cks[i].f) { k = &cks[i]; break; }
    if (!k) { errno = ENOMEM; return NULL; }
    k->fd = fd;
    cookie_io_functions_t io = {rd ? ck_read : NULL, wr ? ck_write : NULL, ck_seek, ck_close};
    int e = errno; // a successful fopen leaves no trace
    k->f = fopencookie(k, mode, io);
    errno = e;
    if (k->f && S->bufsz) setvbuf(k->f, NULL, _IOFBF, S->bufsz);
    return k->f;
}
static int modeflags(const char *m) {
    int f = *m == 'r' ? O_RDONLY : *m == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : *m == 'a' ? O_WRONLY | O_CREAT | O_APPEND : -1;
    if (f < 0) return -1;
    for (m++; *m && *m != ','; m++) { if (*m == '+') f = (f & ~O_ACCMODE) | O_RDWR; if (*m == 'e') f |= O_CLOEXEC; if (*m == 'x') f |= O_EXCL; }
    return f;
}
FILE *fopen(const char *p, const char *m) {
    if (!on) { static FILE *(*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "fopen"); return real(p, m); }
    int f = modeflags(m);
    if (f == -1) { errno = EINVAL; return NULL; }
    int fd = sim_open(S->proc[me].cwd, p, f);
    if (fd < 0) return NULL;
    return stream(fd, m, acc(f) != O_WRONLY, acc(f) != O_RDONLY);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) {
    if (!on) { static FILE *(*real)(int, const char *); if (!real) real = dlsym(RTLD_NEXT, "fdopen"); return real(fd, m); }
    point(K_FDOPEN);
    if (decide(K_FDOPEN, 1)) { errno = ENOMEM; return NULL; }
    if (!ofd_of(fd)) { errno = EBADF; return NULL; }
    int f = modeflags(m);
    return stream(fd, m, acc(f) != O_WRONLY, acc(f) != O_RDONLY);
}
int fileno(FILE *f) {
    for (int i = 0; i < 512; i++) if (f && cks[i].f == f) return cks[i].fd;
    static int (*real)(FILE *); if (!real) real = dlsym(RTLD_NEXT, "fileno"); return real(f);
}
FILE *tmpfile(void) { errno = ENOSYS; return NULL; }

// ---------------------------------------------------------------- time, chance, environment
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on) return pass(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    int v = decide(K_TIME, 4);
    if (v == 1) S->ns += 3600000000000ull; else if (v == 2 && S->ns > 4000000000000ull) S->ns -= 3600000000000ull; else if (v == 3) S->ns += 1; else S->ns += 1000;
    t->tv_sec = S->ns / 1000000000; t->tv_nsec = S->ns % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) { (void)z; struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!on) return pass(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); S->ns += a->tv_sec * 1000000000ull + a->tv_nsec; point(K_SCHED); return 0; }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }
int sched_yield(void) { if (on) point(K_SCHED); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!on) return pass(SYS_getrandom, (long)b, n, fl, 0, 0, 0);
    point(K_RANDOM);
    int v = decide(K_RANDOM, 3);
    if (v == 1) return fail(EINTR);
    if (v == 2) return fail(ENOSYS);
    static uint32_t c;
    uint64_t pick = S->nrnd ? 2 : hash4(S->salt, 21, 0, 0) % 16; // now and then a degenerate seed
    for (size_t i = 0; i < n; i++) ((char *)b)[i] = pick == 0 ? 0 : pick == 1 ? -1 : S->nrnd ? S->rnd[(c + i) % S->nrnd] : (char)hash4(S->salt, 11, c + i, me);
    c += n;
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
char *getenv(const char *k) {
    if (!on) { extern char **environ; size_t l = strlen(k); for (char **e = environ; e && *e; e++) if (!strncmp(*e, k, l) && (*e)[l] == '=') return *e + l + 1; return NULL; }
    if (!strncmp(k, "SIM_OUT ", 8)) { char pre[32]; snprintf(pre, sizeof pre, "SAY %d ", me); evhex(pre, k + 8, strlen(k + 8)); return NULL; }
    if (!strcmp(k, "SIM_OP")) {
        tick();
        if (S->opi >= S->nops) return (char *)"";
        int n = 0, c = 0;
        for (int i = 0; i < MAXFD; i++) n += !!S->proc[me].fd[i].ofd;
        for (int i = 0; i < S->np; i++) c += S->proc[i].ppid == me && S->proc[i].state != GONE;
        ev("OP %d fds=%d children=%d steps=%d faults=%d", S->opi, n, c, S->steps, S->faults);
        return S->ops[S->opi++];
    }
    if (!strcmp(k, "PATH")) return S->path;
    return NULL;
}
char *secure_getenv(const char *k) { return getenv(k); }

// ---------------------------------------------------------------- the collector
// A conservative mark-and-sweep collector in place of libgc: it collects when the plan says so
// and follows what libgc follows (stack, registers, writable segments of the program and its
// libraries). What it frees is overwritten and, by plan, handed out again.
#define GCSZ (16ull << 30)
#define GCOBJ (1u << 26)
typedef struct { uint32_t off; uint32_t size; uint32_t cap; uint8_t mark, dead, atom, pin; } Obj; // off in 16-byte units
static char *gb = (char *)0x200000000000ull, *gt;
static Obj *go;
static uint32_t gn, *gw, gnw, *gpage, *gfree[64], gfn[64], gfc[64];
static char *ghi;
static struct { char *lo, *hi; } segs[512];
static int nsegs;
static struct { char *lo, *hi; } roots[256];
static int nroots;
static uint32_t npins;
static int seg_cb(struct dl_phdr_info *i, size_t sz, void *x) {
    (void)sz; (void)x;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type != PT_LOAD || !(p->p_flags & PF_W) || nsegs >= 512) continue;
        char *lo = (char *)((i->dlpi_addr + p->p_vaddr) & ~7ull), *hi = (char *)i->dlpi_addr + p->p_vaddr + p->p_memsz;
        if ((char *)&nsegs >= lo && (char *)&nsegs < hi) continue;
        segs[nsegs].lo = lo; segs[nsegs++].hi = hi;
    }
    return 0;
}
static void gc_start(void *top) {
    gt = gb;
    if (mmap(gb, GCSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != gb) { raw(SYS_write, 2, (long)"simos: no heap\n", 15, 0, 0, 0); rawexit(98); }
    go = mmap(NULL, sizeof(Obj) * (size_t)GCOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gw = mmap(NULL, 4 * (size_t)GCOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gpage = mmap(NULL, 4 * (GCSZ >> 12), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ghi = top;
}
static inline void gmark(uintptr_t w) {
    if (w < (uintptr_t)gb || w >= (uintptr_t)gt) return;
    uint64_t off = w - (uintptr_t)gb;
    uint32_t a = gpage[off >> 12], b = (off >> 12) + 1 <= (uint64_t)(gt - gb - 1) >> 12 ? gpage[(off >> 12) + 1] + 1 : gn, o = off >> 4;
    if (b > gn) b = gn;
    while (b - a > 1) { uint32_t m = (a + b) / 2; if (go[m].off <= o) a = m; else b = m; }
    Obj *x = &go[a];
    if (x->dead || x->mark || off > ((uint64_t)x->off << 4) + x->size) return; // one past the end still counts
    x->mark = 1;
    gw[gnw++] = a;
}
__attribute__((no_sanitize("address"))) static void gscan(char *lo, char *hi) {
    lo = (char *)(((uintptr_t)lo + 7) & ~7ull);
    for (; lo + 8 <= hi; lo += 8) gmark(*(uintptr_t *)lo);
    while (gnw) {
        Obj *x = &go[gw[--gnw]];
        if (x->atom) continue;
        char *p = gb + ((uint64_t)x->off << 4), *e = p + x->size;
        for (; p + 8 <= e; p += 8) gmark(*(uintptr_t *)p);
    }
}
static int gclass(size_t cap) { int c = 0; size_t k = cap >> 4; if (k <= 32) return k; c = 33; k >>= 5; while (k > 1) { k >>= 1; c++; } return c; }
static void gkill(uint32_t i) {
    Obj *x = &go[i];
    x->dead = 1;
    memset(gb + ((uint64_t)x->off << 4), 0xdb, x->size);
    if (!S->gcreuse) return;
    int c = gclass(x->cap);
    if (gfn[c] == gfc[c]) { gfc[c] = gfc[c] ? gfc[c] * 2 : 256; gfree[c] = realloc(gfree[c], 4 * gfc[c]); }
    gfree[c][gfn[c]++] = i;
}
static uint32_t gfind(void *p) {
    uint64_t off = (char *)p - gb;
    uint32_t a = 0, b = gn;
    while (b - a > 1) { uint32_t m = (a + b) / 2; if (go[m].off <= off >> 4) a = m; else b = m; }
    return a;
}
__attribute__((noinline)) static void collect(void) {
    jmp_buf regs;
    setjmp(regs);
    uintptr_t raw6[6];
    __asm__ volatile("movq %%rbx, 0(%0)\n movq %%rbp, 8(%0)\n movq %%r12, 16(%0)\n movq %%r13, 24(%0)\n movq %%r14, 32(%0)\n movq %%r15, 40(%0)\n" : : "r"(raw6) : "memory");
    for (uint32_t i = 0; i < gn; i++) go[i].mark = 0;
    for (int i = 0; i < 6; i++) gmark(raw6[i]);
    nsegs = 0;
    dl_iterate_phdr(seg_cb, NULL);
    gscan((char *)__builtin_frame_address(0) - 256, ghi);
    for (int i = 0; i < nsegs; i++) gscan(segs[i].lo, segs[i].hi);
    for (int i = 0; i < nroots; i++) gscan(roots[i].lo, roots[i].hi);
    if (npins) for (uint32_t i = 0; i < gn; i++) if (go[i].pin && !go[i].dead && !go[i].mark) { go[i].mark = 1; gw[gnw++] = i; gscan(NULL, NULL); }
    uint32_t freed = 0;
    for (uint32_t i = 0; i < gn; i++) {
        Obj *x = &go[i];
        if (x->dead || x->mark) continue;
        gkill(i); freed++;
    }
    S->gcruns++; S->gcfreed += freed;
}
static int gc_due(void) {
    Proc *p = &S->proc[me];
    if (S->replay) return decide(K_GC, 1);
    uint32_t n = p->cnt[K_GC]++;
    if (!S->gcinv || hash4(S->seed, 1000 + me, n, 9) % S->gcinv) return 0;
    if (S->ndec < S->mdec) S->dec[S->ndec++] = (Dec){me, K_GC, n, 1};
    S->fc[K_GC]++;
    return 1;
}
static void *galloc(size_t n, int atom, int pin) {
    S->gcallocs++;
    if ((S->gcinv || S->nrep) && gc_due()) collect();
    size_t cap = (n + 1 + 15) & ~15ull;
    if (S->gcreuse) {
        int c = gclass(cap);
        for (uint32_t k = gfn[c], t = 0; k-- > 0 && t < 8; t++) {
            Obj *x = &go[gfree[c][k]];
            if (x->cap < cap) continue;
            gfree[c][k] = gfree[c][--gfn[c]];
            x->dead = 0; x->size = n; x->atom = atom; x->pin = pin; npins += pin;
            char *p = gb + ((uint64_t)x->off << 4);
            memset(p, 0, x->cap);
            return p;
        }
    }
    if (gt + cap > gb + GCSZ || gn >= GCOBJ) { raw(SYS_write, 2, (long)"simos: heap full\n", 17, 0, 0, 0); stop("heap full"); }
    uint64_t o0 = gt - gb;
    Obj *x = &go[gn++];
    x->off = o0 >> 4; x->size = n; x->cap = cap; x->dead = 0; x->atom = atom; x->pin = pin; npins += pin;
    char *p = gt;
    gt += cap;
    // the object that covers the start of each page
    if (!(o0 & 4095)) gpage[o0 >> 12] = gn - 1;
    for (uint64_t pg = (o0 >> 12) + 1; pg <= (uint64_t)(gt - gb - 1) >> 12; pg++) gpage[pg] = gn - 1;
    return p;
}
#define REAL(t, name) static t name##_r; if (!name##_r) name##_r = dlsym(RTLD_NEXT, #name)
typedef void *(*alloc_t)(size_t); typedef void *(*realloc_t)(void *, size_t); typedef void (*free_t)(void *); typedef void (*range_t)(void *, void *);
void *GC_malloc(size_t n) { if (!on) { REAL(alloc_t, GC_malloc); return GC_malloc_r(n); } return galloc(n, 0, 0); }
void *GC_malloc_atomic(size_t n) { if (!on) { REAL(alloc_t, GC_malloc_atomic); return GC_malloc_atomic_r(n); } return galloc(n, 1, 0); }
void *GC_malloc_uncollectable(size_t n) { if (!on) { REAL(alloc_t, GC_malloc_uncollectable); return GC_malloc_uncollectable_r(n); } return galloc(n, 0, 1); }
void *GC_malloc_ignore_off_page(size_t n) { return GC_malloc(n); }
void *GC_malloc_atomic_ignore_off_page(size_t n) { return GC_malloc_atomic(n); }
void GC_free(void *p) {
    if (!on) { REAL(free_t, GC_free); GC_free_r(p); return; }
    if (p) { uint32_t i = gfind(p); if (!go[i].dead) { go[i].pin = 0; gkill(i); } }
}
void *GC_realloc(void *p, size_t n) {
    if (!on) { REAL(realloc_t, GC_realloc); return GC_realloc_r(p, n); }
    if (!p) return galloc(n, 0, 0);
    uint32_t i = gfind(p);
    void *q = galloc(n, go[i].atom, go[i].pin);
    memcpy(q, p, go[i].size < n ? go[i].size : n);
    return q;
}
void GC_add_roots(void *a, void *b) {
    if (!on) { REAL(range_t, GC_add_roots); GC_add_roots_r(a, b); return; }
    if (nroots < 256) { roots[nroots].lo = a; roots[nroots++].hi = b; }
}
void GC_remove_roots(void *a, void *b) {
    if (!on) { REAL(range_t, GC_remove_roots); GC_remove_roots_r(a, b); return; }
    for (int i = 0; i < nroots; i++) if (roots[i].lo >= (char *)a && roots[i].hi <= (char *)b) roots[i--] = roots[--nroots];
}
void GC_disable(void) {}
void GC_enable(void) {}
void GC_gcollect(void) { if (on) collect(); }
void GC_init(void) { if (!on) { static void (*real)(void); if (!real) real = dlsym(RTLD_NEXT, "GC_init"); if (real) real(); } }

// ---------------------------------------------------------------- start
static char *unhex(const char *h, uint32_t *n) {
    uint32_t l = strlen(h) / 2;
    char *p = sbrk_(l + 1);
    for (uint32_t i = 0; i < l; i++) { int a = h[2 * i], b = h[2 * i + 1]; p[i] = ((a <= '9' ? a - '0' : a - 'a' + 10) << 4) | (b <= '9' ? b - '0' : b - 'a' + 10); }
    p[l] = 0;
    if (n) *n = l;
    return p;
}
static int mkpath(const char *p, int type, int mode) { // creates missing directories on the way
    int cur = 1;
    char c[NAME_MAX + 1];
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        const char *e = p;
        while (*e && *e != '/') e++;
        memcpy(c, p, e - p); c[e - p] = 0;
        int final = !*e, n = find(cur, c);
        if (!n) { n = new_ino(final ? type : T_DIR, final ? mode : 7); link_(cur, c, n); }
        else if (final) S->ino[n].mode = mode;
        cur = n;
        p = e;
    }
    return cur;
}
static void load(const char *path) {
    int fd = raw(SYS_openat, AT_FDCWD, (long)path, O_RDONLY, 0, 0, 0);
    long cap = 1 << 16, n = 0;
    struct stat st;
    if (fd >= 0 && raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0) cap = st.st_size + 1;
    char *b = sbrk_(cap + 1);
    for (;;) { long k = raw(SYS_read, fd, (long)b + n, cap - n, 0, 0, 0); if (k <= 0) break; n += k; }
    b[n] = 0;
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
    int maxop = 0, maxrep = 0;
    for (char *p = b; *p; p++) if (p == b || p[-1] == '\n') { if (!strncmp(p, "op ", 3)) maxop++; if (!strncmp(p, "dec ", 4)) maxrep++; }
    S->ops = sbrk_(sizeof(char *) * (maxop + 1));
    S->rep = sbrk_(sizeof(Dec) * (maxrep + 1));
    char *end;
    for (char *l = b; *l; l = end) {
        end = strchr(l, '\n');
        if (end) *end++ = 0; else end = l + strlen(l);
        char *w[8]; int k = 0;
        for (char *t = l; k < 8;) { while (*t == ' ') t++; if (!*t) break; w[k++] = t; t = strchr(t, ' '); if (!t) break; *t++ = 0; }
        if (!k) continue;
        for (int i = k; i < 8; i++) w[i] = l + strlen(l);
#define IS(x) !strcmp(w[0], x)
        if (IS("seed")) { S->seed = strtoull(w[1], NULL, 10); }
        else if (IS("salt")) S->salt = strtoull(w[1], NULL, 10);
        else if (IS("replay")) S->replay = 1;
        else if (IS("rate")) { for (int i = 0; i < NK; i++) if (!strcmp(kname[i], w[1])) S->rate[i] = atoi(w[2]); }
        else if (IS("faultmax")) S->faultmax = atoi(w[1]);
        else if (IS("stepmax")) S->stepmax = atoi(w[1]);
        else if (IS("pipecap")) S->pipecap = atoi(w[1]);
        else if (IS("diskcap")) S->diskcap = atoi(w[1]);
        else if (IS("bufsz")) S->bufsz = atoi(w[1]);
        else if (IS("gcinv")) S->gcinv = atoi(w[1]);
        else if (IS("softio")) S->softio = atoi(w[1]);
        else if (IS("heapoff")) S->heapoff = atol(w[1]);
        else if (IS("linkout")) S->linkout = unhex(w[1], NULL);
        else if (IS("gcreuse")) S->gcreuse = atoi(w[1]);
        else if (IS("tty")) S->ttyout = atoi(w[1]);
        else if (IS("cpu")) S->cpu = atoi(w[1]);
        else if (IS("wrfail")) S->wrfail = atoi(w[1]);
        else if (IS("unkdt")) S->unkdt = atoi(w[1]);
        else if (IS("rnd")) { uint32_t n; char *r = unhex(w[1], &n); S->nrnd = n < 64 ? n : 64; memcpy(S->rnd, r, S->nrnd); }
        else if (IS("path")) S->path = unhex(w[1], NULL);
        else if (IS("cwd")) S->cwd = unhex(w[1], NULL);
        else if (IS("report")) S->report = unhex(w[1], NULL);
        else if (IS("op")) S->ops[S->nops++] = unhex(w[1], NULL);
        else if (IS("dec")) { Dec *d = &S->rep[S->nrep++]; d->pid = atoi(w[1]); d->kind = -1; for (int i = 0; i < NK; i++) if (!strcmp(kname[i], w[2])) d->kind = i; d->n = strtoul(w[3], NULL, 10); d->v = atoi(w[4]); }
        else if (IS("dir")) mkpath(unhex(w[1], NULL), T_DIR, atoi(w[2]));
        else if (IS("file") || IS("lnk")) { int i = mkpath(unhex(w[1], NULL), IS("file") ? T_FILE : T_LNK, atoi(w[2])); Ino *n = &S->ino[i]; n->data = unhex(w[3], &n->len); n->cap = n->len; if (IS("file")) S->disk += n->len; }
        else if (IS("stdin")) { S->ino[4].data = unhex(w[1], &S->ino[4].len); S->ino[4].cap = S->ino[4].len; }
    }
}
static int (*real_main)(int, char **, char **);
static int sim_main(int argc, char **argv, char **envp) {
    gc_start((char *)__builtin_frame_address(0));
    if (S->heapoff) galloc(S->heapoff, 1, 1);
    on_exit(at_exit, NULL);
    stdin = stream(0, "r", 1, 0); stdout = stream(1, "w", 0, 1); stderr = stream(2, "w", 0, 1);
    setvbuf(stderr, NULL, _IONBF, 0);
    if (S->ttyout) setvbuf(stdout, NULL, _IOLBF, 1024);
    else if (!S->bufsz) setvbuf(stdout, NULL, _IOFBF, 4096);
    stack_t ss = {.ss_sp = malloc(1 << 18), .ss_size = 1 << 18};
    sigaltstack(&ss, NULL);
    int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGPROF};
    for (int i = 0; i < 7; i++) { struct sigaction sa = {.sa_handler = crashed, .sa_flags = SA_ONSTACK | SA_NODEFER}; static int (*real)(int, const struct sigaction *, struct sigaction *); if (!real) real = dlsym(RTLD_NEXT, "sigaction"); real(sg[i], &sa, NULL); }
    struct itimerval it = {.it_value = {S->cpu, 0}};
    setitimer(ITIMER_PROF, &it, NULL);
    real_fork = dlsym(RTLD_NEXT, "fork");
    on = 1;
    return real_main(argc, argv, envp);
}
int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rl)(void), void *end) {
    int (*real)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
    const char *plan = getenv("SIMOS_PLAN");
    if (!plan) return real(m, argc, argv, init, fini, rl, end);
    S = mmap((void *)0x100000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (S == MAP_FAILED) rawexit(98);
    S->brk = (char *)S + ((sizeof(Sys) + 63) & ~63ull);
    S->log = sbrk_(LOGMAX);
    S->mdec = 1 << 20;
    S->dec = sbrk_(sizeof(Dec) * S->mdec);
    S->stepmax = 200000; S->pipecap = 65536; S->diskcap = -1; S->faultmax = 1 << 30; S->pidbase = 100; S->cpu = 30; S->np = 1; S->bufsz = 4096; S->ns = 1700000000000000000ull;
    S->path = "/bin"; S->cwd = "/work"; S->report = "/dev/null"; S->rootreal = raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    S->ino[1] = (Ino){.type = T_DIR, .nlink = 1, .mode = 7};
    for (int i = 2; i < 5; i++) S->ino[i] = (Ino){.type = T_TTY, .nlink = 1, .mode = 7};
    load(plan);
    Proc *p = &S->proc[0];
    p->state = RUN; p->ppid = -1;
    for (int i = 0; i < 3; i++) { int o = new_ofd(i == 0 ? 4 : i + 1, i == 0 ? O_RDONLY : O_WRONLY | O_APPEND); p->fd[i].ofd = o; S->ofd[o].refs++; }
    if (!S->ttyout) { S->ino[2].type = S->ino[3].type = T_CAP; }
    S->ino[4].type = T_CAP;
    p->cwd = mkpath(S->cwd, T_DIR, 7);
    real_main = m;
    return real(sim_main, argc, argv, init, fini, rl, end);
}
