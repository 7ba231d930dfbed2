/* LD_PRELOAD seam of the simulator.
 *
 * Passive until sim_activate() is called (from the forked actor, through
 * ctypes).  From then on every file-system, dynamic-loader, subprocess,
 * clock, sleep, entropy and blocking-lock call that a registered thread makes
 * on a path under the simulated root is reported to the controller over that
 * thread's socket, and the controller's one-line answer decides what happens:
 *
 *   P a b clk   proceed            E e b clk   fail with errno e
 *   S n b clk   short: limit byte count to n, then proceed
 *   T n b clk   torn: transfer n bytes, then die      K . . .  die now
 *   I . . clk   deliver SIGINT, then proceed
 *   W . . clk   (blocking waits only) wait timed out
 *
 * `a` of a proceeding opendir is the seed of the directory's listing order.
 * `clk` is a jump of the simulated wall clock in ns.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static volatile int g_active = 0;
static pid_t g_pid = 0;
static char g_root[512];
static size_t g_rootlen = 0;
static uint64_t g_entropy = 0;
static int64_t g_mono = 0, g_wall = 0;      /* ns */
static uint64_t g_nrand = 0, g_nclock = 0;
static __thread int t_fd = -1;
static __thread int t_in = 0;

#define MAXFD 4096
static char *fdpath[MAXFD];

struct dirstream { DIR *d; struct dirent64 **ent; int n, pos; uint64_t seed; int slurped; };
#define MAXDIR 64
static struct dirstream dirs[MAXDIR];

struct ans { char act; long a, b; };

static int on(void)
{
    return g_active && t_fd >= 0 && !t_in && (pid_t)syscall(SYS_getpid) == g_pid;
}
static int clock_on(void)
{
    return g_active && (pid_t)syscall(SYS_getpid) == g_pid;
}

static void die(void) { syscall(SYS_exit_group, 137); for (;;) ; }

static void wr_all(const char *b, size_t n)
{
    while (n) {
        ssize_t r = syscall(SYS_write, t_fd, b, n);
        if (r < 0) { if (errno == EINTR) continue; die(); }
        b += r; n -= r;
    }
}

static struct ans ask(const char *op, const char *p1, const char *p2, long n)
{
    char buf[3 * PATH_MAX];
    int save = errno;
    struct ans A = {'P', 0, 0};
    t_in++;
    int len = snprintf(buf, sizeof buf, "O\x1f%s\x1f%s\x1f%s\x1f%ld\n", op,
                       p1 ? p1 : "", p2 ? p2 : "", n);
    if (len >= (int)sizeof buf) len = sizeof buf - 1;
    wr_all(buf, len);
    size_t got = 0;
    for (;;) {
        ssize_t r = syscall(SYS_read, t_fd, buf + got, sizeof buf - 1 - got);
        if (r < 0) { if (errno == EINTR) continue; die(); }
        if (r == 0) die();
        got += r;
        if (buf[got - 1] == '\n') break;
    }
    buf[got] = 0;
    long clk = 0;
    sscanf(buf, "%c %ld %ld %ld", &A.act, &A.a, &A.b, &clk);
    g_mono += 20000; g_wall += 20000 + clk;
    if (A.act == 'K') die();
    t_in--;
    errno = save;
    if (A.act == 'I') { raise(SIGINT); A.act = 'P'; }
    return A;
}

/* absolute path of (dirfd, path); returns 1 when under the root */
static int under(int dirfd, const char *path, char *out)
{
    if (!path) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(out, path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t r = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
            if (r < 0) return 0;
            base[r] = 0;
        }
        if (strlen(base) + strlen(path) + 2 >= PATH_MAX) return 0;
        sprintf(out, "%s/%s", base, path);
    }
    return strncmp(out, g_root, g_rootlen) == 0 &&
           (out[g_rootlen] == '/' || out[g_rootlen] == 0);
}

/* ---- control, called through ctypes ------------------------------------- */
void sim_activate(const char *root, uint64_t entropy, int64_t wall, int64_t mono)
{
    strncpy(g_root, root, sizeof g_root - 1);
    g_rootlen = strlen(g_root);
    g_entropy = entropy; g_wall = wall; g_mono = mono;
    g_pid = (pid_t)syscall(SYS_getpid);
    g_active = 1;
}
void sim_thread(int fd) { t_fd = fd; t_in = 0; }
void sim_deactivate(void) { g_active = 0; }
uint64_t sim_counter(int which) { return which == 0 ? g_nrand : g_nclock; }
int64_t sim_time(void) { return g_mono; }
void sim_point(const char *label) { if (on()) ask("line", label, "", 0); }

/* ---- files ---------------------------------------------------------------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char p[PATH_MAX];
    if (on() && under(dirfd, path, p)) {
        int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        struct stat sb;     /* a folder opened without O_DIRECTORY (rmtree) */
        int dir = (flags & O_DIRECTORY) || (!w && !syscall(SYS_newfstatat, dirfd, path, &sb, 0)
                                            && S_ISDIR(sb.st_mode));
        const char *op = dir ? "opendirfd" : !w ? "openr" :
                         (flags & O_EXCL) ? "openx" : "openw";
        struct ans A = ask(op, p, "", flags);
        if (A.act == 'E') { errno = A.a; return -1; }
        int r = syscall(SYS_openat, dirfd, path, flags, mode);
        if (r >= 0 && r < MAXFD && !dir) {
            free(fdpath[r]); fdpath[r] = strdup(p);
        }
        return r;
    }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }

static const char *tracked(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    if (on() && tracked(fd)) {
        struct ans A = ask("read", tracked(fd), "", (long)n);
        if (A.act == 'E') { errno = A.a; return -1; }
        if (A.act == 'S' && (size_t)A.a < n && n) n = A.a > 0 ? A.a : 1;
    }
    return real(fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (on() && tracked(fd)) {
        struct ans A = ask("write", tracked(fd), "", (long)n);
        if (A.act == 'E') { errno = A.a; return -1; }
        if (A.act == 'S' && (size_t)A.a < n && n) n = A.a > 0 ? A.a : 1;
        if (A.act == 'T') { if ((size_t)A.a < n) n = A.a; real(fd, buf, n); die(); }
    }
    return real(fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t n, off_t o)
{
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    if (on() && tracked(fd)) {
        struct ans A = ask("read", tracked(fd), "", (long)n);
        if (A.act == 'E') { errno = A.a; return -1; }
        if (A.act == 'S' && (size_t)A.a < n && n) n = A.a > 0 ? A.a : 1;
    }
    return real(fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    if (on() && tracked(fd)) {
        struct ans A = ask("write", tracked(fd), "", (long)n);
        if (A.act == 'E') { errno = A.a; return -1; }
        if (A.act == 'S' && (size_t)A.a < n && n) n = A.a > 0 ? A.a : 1;
        if (A.act == 'T') { if ((size_t)A.a < n) n = A.a; real(fd, buf, n, o); die(); }
    }
    return real(fd, buf, n, o);
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n)
{
    REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
    if (on() && tracked(out)) {
        struct ans A = ask("write", tracked(out), "sendfile", (long)n);
        if (A.act == 'E') { errno = A.a; return -1; }
        if (A.act == 'S' && (size_t)A.a < n) n = A.a > 0 ? A.a : 1;
        if (A.act == 'T') { if ((size_t)A.a < n) n = A.a; if (n) real(out, in, off, n); die(); }
    }
    return real(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f)
{
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (on() && tracked(out)) {
        struct ans A = ask("write", tracked(out), "cfr", (long)n);
        if (A.act == 'E') { errno = A.a; return -1; }
        if (A.act == 'S' && (size_t)A.a < n) n = A.a > 0 ? A.a : 1;
        if (A.act == 'T') { if ((size_t)A.a < n) n = A.a; if (n) real(in, io, out, oo, n, f); die(); }
    }
    return real(in, io, out, oo, n, f);
}
int close(int fd)
{
    if (g_active && t_fd >= 0 && fd == t_fd && (pid_t)syscall(SYS_getpid) == g_pid) { errno = EBADF; return -1; }
    if (on() && tracked(fd)) {
        struct ans A = ask("close", tracked(fd), "", 0);
        free(fdpath[fd]); fdpath[fd] = NULL;
        int r = syscall(SYS_close, fd);
        if (A.act == 'E') { errno = A.a; return -1; }
        return r;
    }
    return syscall(SYS_close, fd);
}
#define FDOP(name, args, call, ...) \
int name args { REAL(int, name, __VA_ARGS__); \
    if (on() && tracked(fd)) { struct ans A = ask(#name, tracked(fd), "", 0); \
        if (A.act == 'E') { errno = A.a; return -1; } } \
    return real call; }
FDOP(ftruncate64, (int fd, off_t n), (fd, n), int, off_t)
FDOP(fsync, (int fd), (fd), int)
FDOP(fdatasync, (int fd), (fd), int)
FDOP(fchmod, (int fd, mode_t m), (fd, m), int, mode_t)

/* ---- names ---------------------------------------------------------------- */
#define ONE(opname, name, args, dirfd, path, call, ...) \
int name args { REAL(int, name, __VA_ARGS__); char p_[PATH_MAX]; \
    if (on() && under(dirfd, path, p_)) { struct ans A = ask(opname, p_, "", 0); \
        if (A.act == 'E') { errno = A.a; return -1; } } \
    return real call; }
ONE("unlink", unlink, (const char *p), AT_FDCWD, p, (p), const char *)
ONE("unlink", remove, (const char *p), AT_FDCWD, p, (p), const char *)
ONE("rmdir", rmdir, (const char *p), AT_FDCWD, p, (p), const char *)
ONE("mkdir", mkdir, (const char *p, mode_t m), AT_FDCWD, p, (p, m), const char *, mode_t)
ONE("mkdir", mkdirat, (int d, const char *p, mode_t m), d, p, (d, p, m), int, const char *, mode_t)
ONE("chmod", chmod, (const char *p, mode_t m), AT_FDCWD, p, (p, m), const char *, mode_t)
ONE("chmod", fchmodat, (int d, const char *p, mode_t m, int f), d, p, (d, p, m, f), int, const char *, mode_t, int)
ONE("utime", utimensat, (int d, const char *p, const struct timespec t[2], int f), d, p, (d, p, t, f), int, const char *, const struct timespec *, int)
/* Time stamps under the root are those of a file system with a coarse clock: a run is over before it ticks. */
static void coarse(struct stat64 *s)
{
    struct timespec t = {1700000000, 0};
    s->st_mtim = s->st_ctim = s->st_atim = t;
}
#define STAT(name, args, dirfd, path, call, ...) \
int name args { REAL(int, name, __VA_ARGS__); char p_[PATH_MAX]; int in_ = 0; \
    if (on() && (in_ = under(dirfd, path, p_))) { struct ans A = ask("stat", p_, "", 0); \
        if (A.act == 'E') { errno = A.a; return -1; } } \
    int r_ = real call; if (!r_ && in_) coarse(s); return r_; }
STAT(stat64, (const char *p, struct stat64 *s), AT_FDCWD, p, (p, s), const char *, struct stat64 *)
STAT(lstat64, (const char *p, struct stat64 *s), AT_FDCWD, p, (p, s), const char *, struct stat64 *)
STAT(fstatat64, (int d, const char *p, struct stat64 *s, int f), d, p, (d, p, s, f), int, const char *, struct stat64 *, int)
int fstat64(int fd, struct stat64 *s)
{
    REAL(int, fstat64, int, struct stat64 *);
    int r = real(fd, s);
    if (!r && on()) {
        char l[64], base[PATH_MAX];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
        if (n > 0) {
            base[n] = 0;
            if (base[0] == '/' && !strncmp(base, g_root, g_rootlen)) coarse(s);
        }
    }
    return r;
}
ONE("stat", access, (const char *p, int m), AT_FDCWD, p, (p, m), const char *, int)
ONE("stat", faccessat, (int d, const char *p, int m, int f), d, p, (d, p, m, f), int, const char *, int, int)
ONE("truncate", truncate64, (const char *p, off_t n), AT_FDCWD, p, (p, n), const char *, off_t)
int unlinkat(int d, const char *p, int f)
{
    REAL(int, unlinkat, int, const char *, int);
    char q[PATH_MAX];
    if (on() && under(d, p, q)) {
        struct ans A = ask((f & AT_REMOVEDIR) ? "rmdir" : "unlink", q, "", 0);
        if (A.act == 'E') { errno = A.a; return -1; }
    }
    return real(d, p, f);
}
static int two(const char *op, int d1, const char *a, int d2, const char *b, int *err)
{
    char p[PATH_MAX], q[PATH_MAX];
    int u1 = under(d1, a, p), u2 = under(d2, b, q);
    if (u1 || u2) {
        struct ans A = ask(op, u2 ? q : p, u1 ? p : "", 0);
        if (A.act == 'E') { *err = A.a; return 1; }
    }
    return 0;
}
#define TWO(op, name, args, d1, a, d2, b, call, ...) \
int name args { REAL(int, name, __VA_ARGS__); int e_; \
    if (on() && two(op, d1, a, d2, b, &e_)) { errno = e_; return -1; } \
    return real call; }
TWO("rename", rename, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, (a, b), const char *, const char *)
TWO("rename", renameat, (int x, const char *a, int y, const char *b), x, a, y, b, (x, a, y, b), int, const char *, int, const char *)
TWO("rename", renameat2, (int x, const char *a, int y, const char *b, unsigned f), x, a, y, b, (x, a, y, b, f), int, const char *, int, const char *, unsigned)
TWO("link", link, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, (a, b), const char *, const char *)
TWO("link", linkat, (int x, const char *a, int y, const char *b, int f), x, a, y, b, (x, a, y, b, f), int, const char *, int, const char *, int)
ONE("symlink", symlink, (const char *a, const char *p), AT_FDCWD, p, (a, p), const char *, const char *)
ONE("symlink", symlinkat, (const char *a, int d, const char *p), d, p, (a, d, p), const char *, int, const char *)

/* ---- directory listing, in a seeded order --------------------------------- */
static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static uint64_t nameh(const char *s, uint64_t seed)
{
    uint64_t h = mix(seed);
    while (*s) h = mix(h ^ (unsigned char)*s++);
    return h;
}
static struct dirstream *dfind(DIR *d)
{
    for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) return &dirs[i];
    return NULL;
}
static void dadd(DIR *d, uint64_t seed)
{
    for (int i = 0; i < MAXDIR; i++) if (!dirs[i].d) {
        dirs[i].d = d; dirs[i].seed = seed; dirs[i].n = dirs[i].pos = 0;
        dirs[i].slurped = 0; dirs[i].ent = NULL; return;
    }
}
DIR *opendir(const char *path)
{
    REAL(DIR *, opendir, const char *);
    char p[PATH_MAX];
    if (on() && under(AT_FDCWD, path, p)) {
        struct ans A = ask("opendir", p, "", 0);
        if (A.act == 'E') { errno = A.a; return NULL; }
        DIR *d = real(path);
        if (d) dadd(d, (uint64_t)A.a);
        return d;
    }
    return real(path);
}
DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int);
    char p[PATH_MAX];
    if (on() && under(fd, ".", p)) {
        p[strlen(p) - 2] = 0;
        struct ans A = ask("opendir", p, "", 0);
        if (A.act == 'E') { errno = A.a; return NULL; }
        DIR *d = real(fd);
        if (d) dadd(d, (uint64_t)A.a);
        return d;
    }
    return real(fd);
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    struct dirstream *s = g_active ? dfind(d) : NULL;
    if (!s) return real(d);
    if (!s->slurped) {
        struct dirent64 *e;
        int cap = 0;
        while ((e = real(d))) {
            if (s->n == cap) { cap = cap ? 2 * cap : 16; s->ent = realloc(s->ent, cap * sizeof *s->ent); }
            struct dirent64 *c = malloc(sizeof *c + 8);
            memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
            s->ent[s->n++] = c;
        }
        for (int i = 1; i < s->n; i++) {
            struct dirent64 *x = s->ent[i];
            uint64_t hx = nameh(x->d_name, s->seed);
            int j = i - 1;
            while (j >= 0 && nameh(s->ent[j]->d_name, s->seed) > hx) { s->ent[j + 1] = s->ent[j]; j--; }
            s->ent[j + 1] = x;
        }
        s->slurped = 1;
    }
    if (s->pos >= s->n) { return NULL; }
    return s->ent[s->pos++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d)
{
    REAL(void, rewinddir, DIR *);
    struct dirstream *s = g_active ? dfind(d) : NULL;
    if (s) s->pos = 0;
    real(d);
}
int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    struct dirstream *s = g_active ? dfind(d) : NULL;
    if (s) {
        for (int i = 0; i < s->n; i++) free(s->ent[i]);
        free(s->ent);
        memset(s, 0, sizeof *s);
    }
    return real(d);
}

/* ---- loader, subprocess, locks -------------------------------------------- */
void *dlopen(const char *file, int flags)
{
    REAL(void *, dlopen, const char *, int);
    char p[PATH_MAX];
    /* the interpreter lock may be held here: the controller answers without
       switching to another thread of this process */
    if (file && on() && strchr(file, '/') && under(AT_FDCWD, file, p)) {
        struct ans A = ask("dlopen", p, "", 0);
        if (A.act == 'E') {
            /* a genuine dlerror() message, from a path that cannot exist */
            char q[PATH_MAX + 16];
            snprintf(q, sizeof q, "%s.sim-eio", p);
            return real(q, flags);
        }
    }
    return real(file, flags);
}
int system(const char *cmd)
{
    REAL(int, system, const char *);
    if (cmd && on()) {
        struct ans A = ask("system", cmd, "", 0);
        if (A.act == 'E') { errno = A.a; return -1; }
    }
    return real(cmd);
}
pid_t fork(void)
{
    REAL(pid_t, fork, void);
    if (on()) {
        struct ans A = ask("fork", "", "", 0);
        if (A.act == 'E') { errno = A.a; return -1; }
    }
    return real();
}
int flock(int fd, int op)
{
    REAL(int, flock, int, int);
    if (!on() || !tracked(fd) || (op & LOCK_NB)) return real(fd, op);
    const char *nm = "flock";
    for (;;) {
        struct ans A = ask(nm, tracked(fd), "", op);
        if (A.act == 'E') { errno = A.a; return -1; }
        int r = real(fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK) return r;
        nm = "blocked";
    }
}
static int fcntl_common(int fd, int cmd, void *arg)
{
    if (on() && tracked(fd) && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
        const char *nm = "flock";
        for (;;) {
            struct ans A = ask(nm, tracked(fd), "", cmd);
            if (A.act == 'E') { errno = A.a; return -1; }
            int r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
            if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r;
            nm = "blocked";
        }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl_common(fd, cmd, a); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl_common(fd, cmd, a); }

static int sem_block(sem_t *s, int timed)
{
    REAL(int, sem_trywait, sem_t *);
    for (;;) {
        int r = real(s);
        if (r == 0 || errno != EAGAIN) return r;
        struct ans A = ask("blocked", timed ? "semtimed" : "sem", "", 0);
        if (A.act == 'W') { errno = ETIMEDOUT; return -1; }
    }
}
int sem_wait(sem_t *s)
{
    REAL(int, sem_wait, sem_t *);
    return on() ? sem_block(s, 0) : real(s);
}
int sem_clockwait(sem_t *s, clockid_t c, const struct timespec *t)
{
    REAL(int, sem_clockwait, sem_t *, clockid_t, const struct timespec *);
    return on() ? sem_block(s, 1) : real(s, c, t);
}

/* ---- clock, sleep, entropy ------------------------------------------------- */
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (clock_on()) {
        int64_t t;
        g_nclock++;
        g_mono += 1000; g_wall += 1000;
        t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? g_wall : g_mono;
        ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t *p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict z)
{
    struct timespec ts;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm)
{
    if (on()) {
        int64_t d = rq->tv_sec * 1000000000LL + rq->tv_nsec;
        if (flags & TIMER_ABSTIME) { d -= (c == CLOCK_REALTIME) ? g_wall : g_mono; if (d < 0) d = 0; }
        ask("sleep", "", "", (long)(d / 1000));
        g_mono += d; g_wall += d;
        return 0;
    }
    return syscall(SYS_clock_nanosleep, c, flags, rq, rm);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    if (clock_on()) {
        unsigned char *b = buf;
        for (size_t i = 0; i < n; i++) {
            if (i % 8 == 0) g_entropy = mix(g_entropy + 1);
            b[i] = (unsigned char)(g_entropy >> (8 * (i % 8)));
        }
        g_nrand++;
        return (ssize_t)n;
    }
    return syscall(SYS_getrandom, buf, n, flags);
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
