// The simulated system around the compiler's executable: everything the compiler asks of the system
// from the moment it has code to write (files, directories, pipes, processes) is answered here, by one seed.
// Files really exist, below one scratch folder, and nothing outside of it can be changed; processes are scripts.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

// The system itself; libc's syscall() is what some libraries ask for chance, see the end.
static long raw_syscall(long n, ...) {
    va_list l;
    va_start(l, n);
    long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long), r;
    va_end(l);
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
#define syscall raw_syscall
#define REAL(name) __typeof__(name) *real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

// ---- plan ------------------------------------------------------------------
enum { K_MKDIR, K_OPEN, K_WRITE, K_PIPE, K_SPAWN, K_POLL, K_READ, K_WAIT, K_REMOVE, K_READDIR, K_SCHED, K_SLEEP, K_CREATE, NK };
static const char *kname[NK] = {"mkdir", "open", "write", "pipe", "spawn", "poll", "read", "wait", "remove", "readdir", "sched", "sleep", "create"};
static uint64_t seed, rate[NK], nfault, faultmax = 1u << 30, kcount[NK], injected[NK], decisions, digest = 14695981039346656037ull;
static char root[512], script[2][8192];
static uint64_t pipecap = 65536, stepmax = 200000, steps;
static int on, replaying, repfd = -1;
typedef struct { int k; uint64_t n; long v; } dec_t;
static dec_t decs[4096];
static int ndecs;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

static uint64_t mixbits(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void out(const char *f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (n > (int)sizeof b) n = sizeof b;
    if (repfd >= 0) syscall(SYS_write, repfd, b, n);
    if (strncmp(b, "STAT", 4)) for (int i = 0; i < n; i++) digest = (digest ^ (unsigned char)b[i]) * 1099511628211ull;
}
static char *hexs(const char *s, size_t n) { // a few buffers in turn
    static char b[8][4000];
    static int k;
    char *r = b[k = (k + 1) & 7];
    if (n > 1900) n = 1900;
    for (size_t i = 0; i < n; i++) sprintf(r + 2 * i, "%02x", (unsigned char)s[i]);
    r[2 * n] = 0;
    return r;
}

// One decision: 0 is the ordinary outcome.
static long decide(int k, long nv) {
    if (!on || nv < 1) return 0;
    uint64_t n = kcount[k]++;
    long v = 0;
    if (replaying) {
        for (int i = 0; i < ndecs; i++) if (decs[i].k == k && decs[i].n == n) v = decs[i].v;
    } else if (rate[k]) {
        uint64_t h = mixbits(mixbits(seed * 131 + k) ^ mixbits(n * 7919 + 3));
        if (h % 1000000 < rate[k] && (k == K_SCHED || nfault < faultmax)) v = 1 + (long)((h >> 24) % (uint64_t)nv);
    }
    if (v > nv) v = nv;
    if (v) {
        decisions++;
        injected[k]++;
        if (k != K_SCHED) nfault++;
        out("DEC %s %lu %ld\n", kname[k], (unsigned long)n, v);
    }
    return v;
}
static void stats(void) {
    char b[1024];
    int n = snprintf(b, sizeof b, "STAT steps=%lu decisions=%lu hash=%lx", (unsigned long)steps, (unsigned long)decisions, (unsigned long)digest);
    for (int i = 0; i < NK; i++) n += snprintf(b + n, sizeof b - n, " %s=%lu/%lu", kname[i], (unsigned long)injected[i], (unsigned long)kcount[i]);
    out("%s\n", b);
}
static void stop(const char *why) {
    out("END %s\n", why);
    stats();
    syscall(SYS_exit_group, 99);
}
static void tick(void) { if (++steps > stepmax) stop("no-progress"); }

__attribute__((constructor)) static void init(void) {
    char *p = getenv("CLISIM_PLAN");
    if (!p) return;
    FILE *f = fopen(p, "re");
    if (!f) return;
    static char l[20000], rep[1024];
    while (fgets(l, sizeof l, f)) {
        l[strcspn(l, "\n")] = 0;
        char w[64];
        int o = 0;
        if (sscanf(l, "%63s %n", w, &o) < 1) continue;
        char *r = l + o;
        if (!strcmp(w, "seed")) seed = strtoull(r, 0, 10);
        else if (!strcmp(w, "report")) snprintf(rep, sizeof rep, "%s", r);
        else if (!strcmp(w, "root")) snprintf(root, sizeof root, "%s", r);
        else if (!strcmp(w, "faultmax")) faultmax = strtoull(r, 0, 10);
        else if (!strcmp(w, "pipecap")) pipecap = strtoull(r, 0, 10);
        else if (!strcmp(w, "replay")) replaying = 1;
        else if (!strcmp(w, "linker")) snprintf(script[0], sizeof script[0], "%s", r);
        else if (!strcmp(w, "program")) snprintf(script[1], sizeof script[1], "%s", r);
        else if (!strcmp(w, "rate") || !strcmp(w, "dec")) {
            char k[64];
            unsigned long n = 0;
            long v = 0;
            sscanf(r, "%63s %lu %ld", k, &n, &v);
            for (int i = 0; i < NK; i++) if (!strcmp(k, kname[i])) {
                if (w[0] == 'r') rate[i] = n;
                else if (ndecs < 4096) decs[ndecs++] = (dec_t){i, n, v};
            }
        }
    }
    fclose(f);
    // The report lies outside of what the compiler may touch, on a descriptor it never sees.
    int fd = syscall(SYS_openat, AT_FDCWD, rep, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    repfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
    syscall(SYS_close, fd);
    on = 1;
}
__attribute__((destructor)) static void fini(void) {
    if (!on) return;
    out("END exit\n");
    stats();
    on = 0;
}

// ---- descriptors -----------------------------------------------------------
enum { F_NONE, F_FILE, F_DIR, F_PIPER, F_PIPEW };
typedef struct { char *b; size_t len, pos; int readers, writers; } pipe_t;
typedef struct { int t; pipe_t *p; int nonblock; char path[1024]; } fd_t;
static fd_t fds[1024];
static fd_t *fdof(int fd) { return on && fd >= 0 && fd < 1024 && fds[fd].t ? &fds[fd] : NULL; }

static void absolute(int dirfd, const char *p, char *o, size_t cap) {
    char base[1024] = "";
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
        else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
    }
    char full[2200];
    snprintf(full, sizeof full, "%s/%s", base, p);
    // lexical: the scratch folder holds no symbolic links
    size_t n = 0;
    char *sv, *t;
    o[0] = 0;
    for (t = strtok_r(full, "/", &sv); t; t = strtok_r(NULL, "/", &sv)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { char *q = strrchr(o, '/'); if (q) *q = 0; n = strlen(o); continue; }
        n += snprintf(o + n, n < cap ? cap - n : 0, "/%s", t);
    }
    if (!o[0]) snprintf(o, cap, "/");
}
static int inside(const char *abs) { size_t n = strlen(root); return !strncmp(abs, root, n) && (abs[n] == '/' || !abs[n]); }
static const char *rel(const char *abs) { return inside(abs) ? abs + strlen(root) : abs; }
static int source(const char *abs) { size_t n = strlen(abs); return n > 5 && !strcmp(abs + n - 5, ".llrl"); }
static int fail(int e) { errno = e; return -1; }
static int escape(const char *op, const char *abs) { out("ESCAPE %s %s\n", op, hexs(abs, strlen(abs))); return fail(EPERM); }

static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    if (!on) return syscall(SYS_openat, dirfd, p, flags, mode);
    char a[1200];
    absolute(dirfd, p, a, sizeof a);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!inside(a)) {
        if (w && strncmp(a, "/dev/", 5) && strncmp(a, "/proc/", 6)) return escape("open", a);
        return syscall(SYS_openat, dirfd, p, flags, mode);
    }
    if (source(a)) return syscall(SYS_openat, dirfd, p, flags, mode);
    pthread_mutex_lock(&mu);
    tick();
    static const int ecreate[] = {ENOSPC, EACCES, EMFILE, EINTR, EDQUOT, EROFS, ENOMEM, EEXIST}, eopen[] = {EMFILE, EACCES, EINTR, ENOMEM};
    int excl = (flags & O_EXCL) && (flags & O_CREAT);
    long v = w ? decide(K_CREATE, excl ? 8 : 7) : decide(K_OPEN, 4);
    int fd = -1, e = 0;
    if (v) {
        e = w ? ecreate[v - 1] : eopen[v - 1];
        out("FAULT %s %d %s\n", w ? "create" : "open", e, hexs(rel(a), strlen(rel(a))));
    } else {
        fd = syscall(SYS_openat, dirfd, p, flags, mode);
        e = errno;
        if (fd >= 0 && fd < 1024) {
            fds[fd].t = flags & O_DIRECTORY ? F_DIR : F_FILE;
            snprintf(fds[fd].path, sizeof fds[fd].path, "%s", a);
        }
    }
    if (w) out("OPENW %d %s\n", fd >= 0, hexs(rel(a), strlen(rel(a))));
    pthread_mutex_unlock(&mu);
    errno = e;
    return fd;
}
#define MODE_OF va_list ap_; va_start(ap_, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap_, mode_t) : 0; va_end(ap_)
int open(const char *p, int flags, ...) { MODE_OF; return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE_OF; return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE_OF; return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE_OF; return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

// How much of a write is taken: n, fewer, or an error.
static long write_outcome(fd_t *f, size_t n) {
    tick();
    long v = decide(K_WRITE, n > 1 ? 6 : 5);
    static const int e[] = {EINTR, ENOSPC, EIO, EDQUOT, ENOSPC};
    if (!v) return n;
    if (v == 6 || (v == 5 && n > 1)) { // part of it, then the disk decides again
        size_t k = 1 + mixbits(seed ^ kcount[K_WRITE]) % (n - 1);
        out("SHORT %zu %zu %s\n", k, n, hexs(rel(f->path), strlen(rel(f->path))));
        return k;
    }
    out("FAULT write %d %s\n", e[v - 1], hexs(rel(f->path), strlen(rel(f->path))));
    return -e[v - 1];
}
ssize_t write(int fd, const void *b, size_t n) {
    fd_t *f = fdof(fd);
    if (!f || f->t != F_FILE || !n) return syscall(SYS_write, fd, b, n);
    pthread_mutex_lock(&mu);
    long k = write_outcome(f, n);
    ssize_t r = k < 0 ? k : syscall(SYS_write, fd, b, k);
    pthread_mutex_unlock(&mu);
    return k < 0 ? fail(-k) : r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    fd_t *f = fdof(fd);
    if (!f || f->t != F_FILE) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); // a short write
    return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    fd_t *f = fdof(fd);
    if (!f || f->t != F_FILE || !n) return syscall(SYS_pwrite64, fd, b, n, o);
    pthread_mutex_lock(&mu);
    long k = write_outcome(f, n);
    ssize_t r = k < 0 ? k : syscall(SYS_pwrite64, fd, b, k, o);
    pthread_mutex_unlock(&mu);
    return k < 0 ? fail(-k) : r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

static void advance(int waiting);
static void forget(int fd) {
    fd_t *f = fdof(fd);
    if (!f) return;
    if (f->t == F_PIPER) f->p->readers--;
    if (f->t == F_PIPEW) f->p->writers--;
    f->t = F_NONE;
}
int close(int fd) {
    if (on) {
        pthread_mutex_lock(&mu);
        forget(fd);
        pthread_mutex_unlock(&mu);
    }
    return syscall(SYS_close, fd);
}

// ---- directories -----------------------------------------------------------
static int do_mkdir(int d, const char *p, mode_t m) {
    if (!on) return syscall(SYS_mkdirat, d, p, m);
    char a[1200];
    absolute(d, p, a, sizeof a);
    if (!inside(a)) return escape("mkdir", a);
    pthread_mutex_lock(&mu);
    tick();
    static const int es[] = {EEXIST, ENOSPC, EACCES, EROFS, EDQUOT, ENOENT, EMLINK};
    long v = decide(K_MKDIR, 7);
    int r, e;
    if (v) { r = -1; e = es[v - 1]; out("FAULT mkdir %d %s\n", e, hexs(rel(a), strlen(rel(a)))); }
    else { r = syscall(SYS_mkdirat, d, p, m); e = errno; if (!r) out("MKDIR %s\n", hexs(rel(a), strlen(rel(a)))); }
    pthread_mutex_unlock(&mu);
    errno = e;
    return r;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }
static int do_unlink(int d, const char *p, int fl) {
    if (!on) return syscall(SYS_unlinkat, d, p, fl);
    char a[1200];
    absolute(d, p, a, sizeof a);
    if (!inside(a) || source(a)) return escape("remove", a);
    pthread_mutex_lock(&mu);
    tick();
    static const int es[] = {EACCES, EBUSY, EIO, EROFS};
    long v = decide(K_REMOVE, 4);
    int r, e;
    if (v) { r = -1; e = es[v - 1]; out("FAULT remove %d %s\n", e, hexs(rel(a), strlen(rel(a)))); }
    else { r = syscall(SYS_unlinkat, d, p, fl); e = errno; if (!r) out("REMOVED %s\n", hexs(rel(a), strlen(rel(a)))); }
    pthread_mutex_unlock(&mu);
    errno = e;
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
static int do_rename(int d1, const char *p, int d2, const char *q) {
    char a[1200], b[1200];
    absolute(d1, p, a, sizeof a);
    absolute(d2, q, b, sizeof b);
    if (on && (!inside(a) || !inside(b))) return escape("rename", b);
    return syscall(SYS_renameat, d1, p, d2, q);
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q); }
int renameat(int a, const char *p, int b, const char *q) { return do_rename(a, p, b, q); }
// A listing's order is a matter of chance, too: decided by the seed and the names.
typedef struct { DIR *d; struct dirent64 **e; int n, at; } list_t;
static list_t lists[32];
static int by_name(const void *a, const void *b) {
    const char *x = (*(struct dirent64 **)a)->d_name, *y = (*(struct dirent64 **)b)->d_name;
    uint64_t h = mixbits(seed), g = h;
    for (const char *s = x; *s; s++) h = mixbits(h ^ (unsigned char)*s);
    for (const char *s = y; *s; s++) g = mixbits(g ^ (unsigned char)*s);
    return h < g ? -1 : h > g ? 1 : strcmp(x, y);
}
static struct dirent64 *do_readdir(DIR *d, struct dirent64 *(*real)(DIR *)) {
    if (!on || !fdof(dirfd(d))) return real(d);
    pthread_mutex_lock(&mu);
    tick();
    struct dirent64 *r = NULL;
    list_t *l = NULL;
    for (int i = 0; i < 32; i++) if (lists[i].d == d) l = &lists[i];
    if (!l) {
        for (int i = 0; i < 32 && !l; i++) if (!lists[i].d) l = &lists[i];
        if (!l) stop("too many listings");
        memset(l, 0, sizeof *l);
        l->d = d;
        struct dirent64 *x;
        while ((x = real(d))) {
            l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
            l->e[l->n] = calloc(1, sizeof *x);
            memcpy(l->e[l->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        }
        if (l->n) qsort(l->e, l->n, sizeof *l->e, by_name);
    }
    long v = decide(K_READDIR, 1);
    if (v) out("FAULT readdir 5 %s\n", hexs(rel(fds[dirfd(d)].path), strlen(rel(fds[dirfd(d)].path))));
    else if (l->at < l->n) r = l->e[l->at++];
    pthread_mutex_unlock(&mu);
    if (v) errno = EIO;
    return r;
}
struct dirent64 *readdir64(DIR *d) { REAL(readdir64); return do_readdir(d, real); }
struct dirent *readdir(DIR *d) { REAL(readdir); return (struct dirent *)do_readdir(d, (struct dirent64 * (*)(DIR *)) real); }
int closedir(DIR *d) {
    REAL(closedir);
    if (on) {
        pthread_mutex_lock(&mu);
        forget(dirfd(d));
        for (int i = 0; i < 32; i++) if (lists[i].d == d) lists[i].d = NULL;
        pthread_mutex_unlock(&mu);
    }
    return real(d);
}

// ---- pipes and processes ---------------------------------------------------
typedef struct { int kind; int at, fd; char path[256]; } act_t; // 1 dup2 at->fd, 2 open path at fd, 3 close fd
typedef struct { void *key; act_t a[16]; int n; } fa_t;
static fa_t fas[16];
static fa_t *fa(const void *k, int make) {
    for (int i = 0; i < 16; i++) if (fas[i].key == k && k) return &fas[i];
    if (make) for (int i = 0; i < 16; i++) if (!fas[i].key) { fas[i].key = (void *)k; fas[i].n = 0; return &fas[i]; }
    return NULL;
}
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *p) {
    REAL(posix_spawn_file_actions_init);
    pthread_mutex_lock(&mu);
    fa_t *f = fa(p, 1);
    if (f) f->n = 0;
    pthread_mutex_unlock(&mu);
    return real(p);
}
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *p) {
    REAL(posix_spawn_file_actions_destroy);
    pthread_mutex_lock(&mu);
    fa_t *f = fa(p, 0);
    if (f) f->key = NULL;
    pthread_mutex_unlock(&mu);
    return real(p);
}
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *p, int a, int b) {
    REAL(posix_spawn_file_actions_adddup2);
    fa_t *f = fa(p, 0);
    if (f && f->n < 16) { f->a[f->n].kind = 1; f->a[f->n].at = a; f->a[f->n++].fd = b; }
    return real(p, a, b);
}
int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *p, int fd, const char *path, int fl, mode_t m) {
    REAL(posix_spawn_file_actions_addopen);
    fa_t *f = fa(p, 0);
    if (f && f->n < 16) { f->a[f->n].kind = 2; snprintf(f->a[f->n].path, 256, "%s", path); f->a[f->n++].fd = fd; }
    return real(p, fd, path, fl, m);
}
int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *p, int fd) {
    REAL(posix_spawn_file_actions_addclose);
    fa_t *f = fa(p, 0);
    if (f && f->n < 16) { f->a[f->n].kind = 3; f->a[f->n++].fd = fd; }
    return real(p, fd);
}

// A process: a script. o/e LEN write LEN bytes, w LEN/full write the output file, i read all input,
// s do nothing, c close the outputs, x CODE exit, k SIG die.
typedef struct { int used, pid, which, done, reaped, status; char *pc, dest[1200]; long left; int ph; fd_t io[3]; int inherit[3], closed; } proc_t;
static proc_t procs[8];
static int nprocs;

int pipe2(int r[2], int flags) {
    if (!on) return syscall(SYS_pipe2, r, flags);
    pthread_mutex_lock(&mu);
    tick();
    static const int es[] = {EMFILE, ENFILE};
    long v = decide(K_PIPE, 2);
    int e = 0;
    if (v) { e = es[v - 1]; out("FAULT pipe %d -\n", e); }
    else {
        pipe_t *p = calloc(1, sizeof *p);
        p->b = malloc(pipecap);
        p->readers = p->writers = 1;
        for (int i = 0; i < 2; i++) {
            int fd = r[i] = syscall(SYS_openat, AT_FDCWD, "/dev/null", (i ? O_WRONLY : O_RDONLY) | (flags & O_CLOEXEC), 0);
            fds[fd].t = i ? F_PIPEW : F_PIPER;
            fds[fd].p = p;
            fds[fd].nonblock = !!(flags & O_NONBLOCK);
        }
        out("PIPE\n");
    }
    pthread_mutex_unlock(&mu);
    return e ? fail(e) : 0;
}
int pipe(int r[2]) { return pipe2(r, 0); }

static void finish(proc_t *p, int status) {
    p->done = 1;
    p->status = status;
    for (int i = 0; i < 3; i++) {
        if (p->closed && i) continue;
        if (p->io[i].t == F_PIPEW) p->io[i].p->writers--;
        if (p->io[i].t == F_PIPER) p->io[i].p->readers--;
    }
    out("ENDED %s %d %d\n", p->which ? "program" : "linker", WIFSIGNALED(status) ? WTERMSIG(status) : 0, WIFSIGNALED(status) ? 0 : WEXITSTATUS(status));
}
static char patbyte(int which, int e, long i) { return i % 40 == 39 ? '\n' : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"[(i * 7 + which * 5 + e * 11) % 36]; }
static uint64_t fnv(const char *b, size_t n) {
    uint64_t h = 14695981039346656037ull;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
    return h;
}
// 1 if the process moved
static int step(proc_t *p) {
    if (p->done) return 0;
    tick();
    if (p->left > 0) { // in the middle of a write
        int s = p->ph;
        fd_t *f = &p->io[s];
        long i0 = strtol(p->pc + 2, 0, 10) - p->left;
        if (f->t == F_PIPEW && !p->closed) {
            if (!f->p->readers) { finish(p, SIGPIPE); return 1; }
            size_t room = pipecap - f->p->len;
            if (!room) return 0;
            size_t k = (size_t)p->left < room ? (size_t)p->left : room;
            if (decide(K_SCHED, 1)) k = 1 + mixbits(seed ^ kcount[K_SCHED]) % k;
            for (size_t j = 0; j < k; j++) f->p->b[f->p->len++] = patbyte(p->which, s == 2, i0 + j);
            p->left -= k;
        } else if (p->inherit[s] && !p->closed) {
            char b[256];
            while (p->left > 0) {
                long k = p->left < 256 ? p->left : 256;
                for (long j = 0; j < k; j++) b[j] = patbyte(p->which, s == 2, i0 + j);
                if (syscall(SYS_write, p->inherit[s] - 1, b, k) != k) break;
                i0 += k;
                p->left -= k;
            }
            p->left = 0;
        } else p->left = 0;
        if (p->left) return 1;
        p->pc += strcspn(p->pc, ";");
        if (*p->pc) p->pc++;
        return 1;
    }
    char c = *p->pc;
    long a = c && p->pc[1] == ' ' ? strtol(p->pc + 2, 0, 10) : 0;
    if (c == 'o' || c == 'e') {
        p->left = a;
        p->ph = c == 'o' ? 1 : 2;
        if (a) return 1;
    } else if (c == 'x') { finish(p, (int)(a & 255) << 8); return 1; }
    else if (c == 'k') { finish(p, (int)a); return 1; }
    else if (!c) { finish(p, 0); return 1; }
    else if (c == 'c') { p->closed = 1; for (int i = 1; i < 3; i++) if (p->io[i].t == F_PIPEW) p->io[i].p->writers--; }
    else if (c == 'w' && p->dest[0]) {
        // what a linker leaves: complete (and executable) or not
        syscall(SYS_unlinkat, AT_FDCWD, p->dest, 0);
        int fd = syscall(SYS_openat, AT_FDCWD, p->dest, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, a ? 0644 : 0755);
        char t[64];
        int n = snprintf(t, sizeof t, "#!built %d %s\n", p->pid, a ? "partial" : "complete");
        if (fd >= 0) { syscall(SYS_write, fd, t, n); syscall(SYS_fchmod, fd, a ? 0644 : 0755); syscall(SYS_close, fd); }
        out("BUILT %s %s\n", a ? "partial" : "complete", hexs(rel(p->dest), strlen(rel(p->dest))));
    } else if (c == 'i') {
        char b[65536];
        size_t n = 0;
        ssize_t k;
        if (p->inherit[0] == 1) while (n < sizeof b && (k = syscall(SYS_read, 0, b + n, sizeof b - n)) > 0) n += k;
        out("INPUT %d %zu %lx\n", p->inherit[0], n, (unsigned long)fnv(b, n));
    }
    p->pc += strcspn(p->pc, ";");
    if (*p->pc) p->pc++;
    return 1;
}
static void advance(int waiting) {
    int any = 0;
    for (int i = 0; i < nprocs; i++) {
        int n = 0;
        if (decide(K_SCHED, 1)) n = 1 + (int)(mixbits(seed + kcount[K_SCHED]) % 4);
        while (n-- > 0) { if (!step(&procs[i])) break; any = 1; }
    }
    if (waiting && !any) {
        for (int i = 0; i < nprocs; i++) if (step(&procs[i])) any = 1;
        if (!any) stop("deadlock");
    }
}

static void look_at(const char *path, const char *opt) { // what the linker is given
    struct stat s;
    int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0 || fstat(fd, &s)) { out("INPUTFILE missing 0 0 %s %s\n", opt, hexs(path, strlen(path))); if (fd >= 0) syscall(SYS_close, fd); return; }
    char *b = malloc(s.st_size + 1);
    size_t n = 0;
    ssize_t k;
    while (n < (size_t)s.st_size && (k = syscall(SYS_read, fd, b + n, s.st_size - n)) > 0) n += k;
    syscall(SYS_close, fd);
    const char *kind = "other";
    if (n >= 64 && !memcmp(b, "\177ELF", 4)) {
        uint64_t sh, e = 0;
        uint16_t es, ns;
        memcpy(&sh, b + 40, 8);
        memcpy(&es, b + 58, 2);
        memcpy(&ns, b + 60, 2);
        kind = "elf";
        e = sh + (uint64_t)es * ns;
        if (sh == 0 || ns == 0 || e > n) kind = "cut";
        else for (int i = 0; i < ns; i++) {
            uint32_t ty;
            uint64_t of, sz;
            memcpy(&ty, b + sh + i * es + 4, 4);
            memcpy(&of, b + sh + i * es + 24, 8);
            memcpy(&sz, b + sh + i * es + 32, 8);
            if (ty != 8 && ty != 0 && of + sz > n) kind = "cut";
        }
    } else if (n >= 8 && !memcmp(b, "!<arch>\n", 8)) {
        kind = "archive";
        size_t o = 8;
        while (o < n) {
            if (o + 60 > n || memcmp(b + o + 58, "`\n", 2)) { kind = "cut"; break; }
            char t[11] = {0};
            memcpy(t, b + o + 48, 10);
            size_t z = strtoul(t, 0, 10);
            o += 60 + z + (z & 1);
            if (o > n + 1) { kind = "cut"; break; }
        }
    } else kind = "cut";
    out("INPUTFILE %s %zu %lx %s %s\n", kind, n, (unsigned long)fnv(b, n), opt, hexs(rel(path), strlen(rel(path))));
    free(b);
}

static int do_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *acts, char *const argv[]) {
    pthread_mutex_lock(&mu);
    tick();
    int which = strchr(file, '/') != NULL || strcmp(file, "clang") != 0;
    out("SPAWN %s\n", which ? "program" : "linker");
    for (int i = 0; argv[i]; i++) { // the scratch folder's own name does not count
        char b[2000], *q = strstr(argv[i], root);
        if (q) snprintf(b, sizeof b, "%.*s@%s", (int)(q - argv[i]), argv[i], q + strlen(root));
        else snprintf(b, sizeof b, "%s", argv[i]);
        out("ARGV %s\n", hexs(b, strlen(b)));
    }
    static const int es[] = {ENOENT, EACCES, EAGAIN, ENOMEM, EMFILE};
    long v = decide(K_SPAWN, 5);
    int e = v ? es[v - 1] : 0;
    if (v) out("FAULT spawn %d %s\n", e, which ? "program" : "linker");
    if (!e && which) {
        char b[64] = "";
        struct stat s;
        int fd = syscall(SYS_openat, AT_FDCWD, file, O_RDONLY | O_CLOEXEC, 0);
        if (fd < 0) e = errno;
        else {
            ssize_t n = syscall(SYS_read, fd, b, 63);
            b[n > 0 ? n : 0] = 0;
            if (!fstat(fd, &s) && !(s.st_mode & 0111)) e = EACCES;
            else if (strncmp(b, "#!", 2)) e = ENOEXEC;
            syscall(SYS_close, fd);
        }
        b[strcspn(b, "\n")] = 0;
        if (!e) out("IMAGE %s\n", b + 2);
        else out("NOIMAGE %d\n", e);
    }
    if (e || nprocs == 8) { pthread_mutex_unlock(&mu); return e ? e : EAGAIN; }
    proc_t *p = &procs[nprocs++];
    memset(p, 0, sizeof *p);
    p->pid = 70000 + nprocs;
    p->which = which;
    p->pc = script[which];
    for (int i = 0; i < 3; i++) p->inherit[i] = i + 1;
    fa_t *f = acts ? fa(acts, 0) : NULL;
    if (f) for (int i = 0; i < f->n; i++) {
        act_t *a = &f->a[i];
        if (a->fd < 0 || a->fd > 2) continue;
        p->inherit[a->fd] = 0;
        p->io[a->fd].t = F_NONE;
        if (a->kind == 1) {
            fd_t *s = fdof(a->at);
            if (s && (s->t == F_PIPER || s->t == F_PIPEW)) {
                p->io[a->fd] = *s;
                if (s->t == F_PIPEW) s->p->writers++; else s->p->readers++;
            } else if (a->at >= 0 && a->at <= 2) p->inherit[a->fd] = a->at + 1;
        }
    }
    out("STREAMS %d %d %d\n", p->inherit[0], p->inherit[1], p->inherit[2]);
    if (!which) {
        for (int i = 1; argv[i]; i++) {
            if (!strcmp(argv[i], "-o") && argv[i + 1]) absolute(AT_FDCWD, argv[++i], p->dest, sizeof p->dest);
            else if (!strncmp(argv[i], "-L", 2)) { char t[1400]; snprintf(t, sizeof t, "%s/libllrt.a", argv[i] + 2); look_at(t, "-l"); }
            else if (argv[i][0] != '-') look_at(argv[i], "file");
        }
        if (p->dest[0] && !inside(p->dest)) { escape("link", p->dest); p->dest[0] = 0; }
    }
    *pid = p->pid;
    advance(0);
    pthread_mutex_unlock(&mu);
    return 0;
}
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
    if (on) return do_spawn(pid, file, a, argv);
    REAL(posix_spawnp);
    return real(pid, file, a, at, argv, envp);
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
    if (on) return do_spawn(pid, file, a, argv);
    REAL(posix_spawn);
    return real(pid, file, a, at, argv, envp);
}
pid_t fork(void) {
    REAL(fork);
    if (!on) return real();
    stop("fork"); // not simulated
    return fail(ENOSYS);
}
pid_t vfork(void) { return fork(); }

static proc_t *child(pid_t pid) {
    for (int i = 0; i < nprocs; i++) if (!procs[i].reaped && (pid == -1 || procs[i].pid == pid)) return &procs[i];
    return NULL;
}
static pid_t do_wait(pid_t pid, int *st, int options) {
    pthread_mutex_lock(&mu);
    tick();
    static const int es[] = {EINTR, EINTR, EINTR, ECHILD};
    proc_t *p = child(pid);
    long v = decide(K_WAIT, 4);
    pid_t r = -1;
    int e = 0;
    if (v) { e = es[v - 1]; out("FAULT wait %d %s\n", e, p && p->which ? "program" : "linker"); }
    else if (!p) e = ECHILD;
    else {
        while (!p->done && !(options & WNOHANG)) advance(1);
        if (!p->done) { advance(0); r = 0; }
        else { p->reaped = 1; *st = p->status; r = p->pid; out("REAPED %s\n", p->which ? "program" : "linker"); }
    }
    pthread_mutex_unlock(&mu);
    if (e) errno = e;
    return r;
}
pid_t waitpid(pid_t pid, int *st, int o) {
    int s = 0;
    pid_t r = on ? do_wait(pid, &s, o) : syscall(SYS_wait4, pid, &s, o, 0);
    if (st && r > 0) *st = s;
    return r;
}
pid_t wait4(pid_t pid, int *st, int o, struct rusage *u) { (void)u; return waitpid(pid, st, o); }
pid_t wait(int *st) { return waitpid(-1, st, 0); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int o) {
    REAL(waitid);
    if (!on) return real(t, id, si, o);
    int st = 0;
    pid_t r = do_wait(t == P_PID ? (pid_t)id : -1, &st, o);
    if (r < 0) return -1;
    memset(si, 0, sizeof *si);
    if (r) {
        si->si_pid = r;
        si->si_signo = SIGCHLD;
        si->si_code = WIFSIGNALED(st) ? CLD_KILLED : CLD_EXITED;
        si->si_status = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
    }
    return 0;
}
int kill(pid_t pid, int sig) {
    proc_t *p = on ? child(pid) : NULL;
    if (!p) return on ? fail(ESRCH) : syscall(SYS_kill, pid, sig);
    if (!p->done && sig) finish(p, sig);
    return 0;
}

ssize_t read(int fd, void *b, size_t n) {
    fd_t *f = fdof(fd);
    if (on && fd == 0) out("STDIN\n");
    if (!f || f->t != F_PIPER) return syscall(SYS_read, fd, b, n);
    pthread_mutex_lock(&mu);
    tick();
    static const int es[] = {EINTR, EINTR, EIO};
    ssize_t r = 0;
    int e = 0;
    long v = decide(K_READ, 4);
    pipe_t *p = f->p;
    if (v && v < 4) { e = es[v - 1]; out("FAULT read %d -\n", e); }
    else {
        while (!p->len && p->writers && !f->nonblock) advance(1);
        if (!p->len && p->writers) e = EAGAIN;
        else if (p->len) {
            size_t k = n < p->len ? n : p->len;
            if (v == 4 && k > 1) k = 1 + mixbits(seed ^ kcount[K_READ]) % (k - 1);
            memcpy(b, p->b, k);
            memmove(p->b, p->b + k, p->len - k);
            p->len -= k;
            r = k;
        }
        if (f->nonblock) advance(0);
    }
    pthread_mutex_unlock(&mu);
    return e ? fail(e) : r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    fd_t *f = fdof(fd);
    if (!f || f->t != F_PIPER) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int poll(struct pollfd *q, nfds_t n, int timeout) {
    int any = 0;
    for (nfds_t i = 0; i < n; i++) if (fdof(q[i].fd) && fds[q[i].fd].t >= F_PIPER) any = 1;
    if (!any) return syscall(SYS_poll, q, n, timeout);
    pthread_mutex_lock(&mu);
    tick();
    int r = 0, e = 0;
    static const int es[] = {EINTR, EINTR, ENOMEM};
    long v = decide(K_POLL, 3);
    if (v) { e = es[v - 1]; out("FAULT poll %d -\n", e); }
    else for (;;) {
        for (nfds_t i = 0; i < n; i++) {
            fd_t *f = fdof(q[i].fd);
            q[i].revents = 0;
            if (!f) continue;
            if (f->t == F_PIPER) {
                if (f->p->len && (q[i].events & POLLIN)) q[i].revents |= POLLIN;
                if (!f->p->writers) q[i].revents |= POLLHUP;
            } else if (f->t == F_PIPEW && (q[i].events & POLLOUT) && f->p->len < pipecap) q[i].revents |= POLLOUT;
            if (q[i].revents) r++;
        }
        if (r || timeout == 0) break;
        advance(1);
    }
    pthread_mutex_unlock(&mu);
    return e ? fail(e) : r;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list a;
    va_start(a, req);
    void *p = va_arg(a, void *);
    va_end(a);
    fd_t *f = fdof(fd);
    if (f && f->t >= F_PIPER && req == FIONBIO) { f->nonblock = *(int *)p; return 0; }
    return syscall(SYS_ioctl, fd, req, p);
}
static int do_fcntl(int fd, int cmd, void *p) {
    fd_t *f = fdof(fd);
    if (f && f->t >= F_PIPER) {
        if (cmd == F_SETFL) { f->nonblock = !!((long)p & O_NONBLOCK); return 0; }
        if (cmd == F_GETFL) return (f->t == F_PIPEW ? O_WRONLY : O_RDONLY) | (f->nonblock ? O_NONBLOCK : 0);
    }
    int r = syscall(SYS_fcntl, fd, cmd, p);
    if (f && r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r < 1024) {
        fds[r] = *f;
        if (f->t == F_PIPER) f->p->readers++;
        if (f->t == F_PIPEW) f->p->writers++;
    }
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }

// Chance: names of temporary files and hash seeds.
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!on) return syscall(SYS_getrandom, b, n, fl);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = mixbits(seed * 1000 + i / 8) >> (8 * (i % 8));
    return n;
}
#undef syscall
long syscall(long n, ...) {
    va_list l;
    va_start(l, n);
    long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
    va_end(l);
    if (n == SYS_getrandom) return getrandom((void *)a, b, c);
    return raw_syscall(n, a, b, c, d, e, f);
}
