/* simio: libc-level seam of the deterministic simulator.
 *
 * Loaded with LD_PRELOAD.  Does nothing until simio_attach() is called in a
 * forked "node" process.  From then on every I/O call of that process on a path
 * below the simulated disk (root), or on a file descriptor opened through it,
 * is reported to the simulator over a seqpacket socket, and performed, failed,
 * shortened, torn or turned into a process crash as the simulator answers.
 * The clock is served from a simulated value carried by each answer.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_MKDIR,
       OP_STAT, OP_LOCK, OP_SLEEP, OP_YIELD, OP_LIST };
enum { A_PROCEED = 0, A_FAIL, A_SHORT, A_CRASH, A_TORN, A_SIGINT, A_SIGTERM };

struct req {
    int32_t op, fd;
    int64_t off, len, flags;
    uint32_t crc, pad;
    char path[200];
};
struct rep {
    int32_t action, pad;
    int64_t arg, mono, lat, jump;   /* lat: simulated duration of the call; jump: wall clock correction */
};

#define MAXFD 4096
static volatile int active = 0;
static int sock = -1;
static char root[512];
static size_t rootlen;
static int64_t mono_ns, real_ns, tick_ns;
static int clock_on = 0;
static unsigned char tracked[MAXFD];
static char *fdpath[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside = 0;
static int64_t nops = 0;

#define REAL(ret, name, args) static ret(*real_##name) args = NULL; \
    if (!real_##name) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

static uint32_t crc_of(const void *p, size_t n) {
    /* FNV-1a, enough to tell payloads apart */
    const unsigned char *b = p;
    uint32_t h = 2166136261u;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 16777619u; }
    return h;
}

static void normalise(const char *in, char *out, size_t cap) {
    char tmp[1024];
    if (in[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", in);
    } else {
        char cwd[512];
        long r = syscall(SYS_getcwd, cwd, sizeof cwd);
        if (r < 0) cwd[0] = 0;
        snprintf(tmp, sizeof tmp, "%.500s/%.500s", cwd, in);
    }
    size_t o = 0;
    char *save = NULL;
    out[0] = 0;
    for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) {
            while (o > 0 && out[o - 1] != '/') o--;
            if (o > 0) o--;
            out[o] = 0;
            continue;
        }
        size_t l = strlen(t);
        if (o + l + 2 > cap) break;
        out[o++] = '/';
        memcpy(out + o, t, l);
        o += l;
        out[o] = 0;
    }
    if (o == 0) { out[0] = '/'; out[1] = 0; }
}

/* path relative to the simulated disk, or NULL if it is not on it */
static const char *inroot(const char *path, char *buf, size_t cap) {
    if (!active || inside || !path) return NULL;
    normalise(path, buf, cap);
    if (strncmp(buf, root, rootlen)) return NULL;
    if (buf[rootlen] == 0) return ".";
    if (buf[rootlen] != '/') return NULL;
    return buf + rootlen + 1;
}

static void die(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

static struct rep ask(int op, int fd, const char *path, int64_t off, int64_t len, int64_t flags, const void *data) {
    struct req q;
    struct rep r;
    memset(&q, 0, sizeof q);
    q.op = op; q.fd = fd; q.off = off; q.len = len; q.flags = flags;
    q.crc = data && len > 0 ? crc_of(data, (size_t)len) : 0;
    if (path) snprintf(q.path, sizeof q.path, "%s", path);
    inside++;
    pthread_mutex_lock(&mu);
    nops++;
    long s;
    do { s = syscall(SYS_sendto, sock, &q, sizeof q, MSG_NOSIGNAL, NULL, 0); } while (s < 0 && errno == EINTR);
    if (s != (long)sizeof q) die(99);
    do { s = syscall(SYS_recvfrom, sock, &r, sizeof r, 0, NULL, NULL); } while (s < 0 && errno == EINTR);
    if (s != (long)sizeof r) die(99);
    int64_t m = mono_ns + r.lat;
    if (r.mono > m) m = r.mono;
    real_ns += m - mono_ns + r.jump;
    mono_ns = m;
    pthread_mutex_unlock(&mu);
    inside--;
    if (r.action == A_CRASH) die(137);
    if (r.action == A_SIGINT) { raise(SIGINT); r.action = A_PROCEED; }
    if (r.action == A_SIGTERM) { raise(SIGTERM); r.action = A_PROCEED; }
    return r;
}

/* ---- control, called through ctypes ---- */
int simio_attach(int s, const char *r) {
    sock = s;
    normalise(r, root, sizeof root);
    rootlen = strlen(root);
    memset(tracked, 0, sizeof tracked);
    active = 1;
    return 0;
}
void simio_detach(void) { active = 0; }
void simio_resume(void) { active = 1; }
int64_t simio_nops(void) { return nops; }
void simio_clock(int on, int64_t mono, int64_t real, int64_t tick) {
    clock_on = on; mono_ns = mono; real_ns = real; tick_ns = tick;
}
int simio_yield(int64_t tag) { /* cooperative scheduling point with no I/O */
    if (!active || inside) return 0;
    struct rep r = ask(OP_YIELD, -1, "", tag, 0, 0, NULL);
    return r.action;
}
int simio_present(void) { return 1; }

/* ---- descriptors ---- */
static void track(int fd, const char *rel) {
    if (fd < 0 || fd >= MAXFD) return;
    tracked[fd] = 1;
    free(fdpath[fd]);
    fdpath[fd] = strdup(rel);
}
static int istracked(int fd) { return active && !inside && fd >= 0 && fd < MAXFD && tracked[fd]; }

static int do_open(const char *path, int flags, mode_t mode, int (*fn)(const char *, int, ...)) {
    char buf[1024];
    const char *rel = inroot(path, buf, sizeof buf);
    if (!rel) return fn(path, flags, mode);
    struct rep r = ask(OP_OPEN, -1, rel, 0, 0, flags, NULL);
    if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
    int fd = fn(path, flags, mode);
    int e = errno;
    if (fd >= 0) track(fd, rel);
    errno = e;
    return fd;
}
int open(const char *path, int flags, ...) {
    REAL(int, open, (const char *, int, ...));
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(path, flags, m, real_open);
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, (const char *, int, ...));
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(path, flags, m, real_open64);
}
int creat(const char *path, mode_t m) {
    REAL(int, open, (const char *, int, ...));
    return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m, real_open);
}
static int do_openat(int dfd, const char *path, int flags, mode_t m) {
    REAL(int, openat, (int, const char *, int, ...));
    char buf[1024];
    if (dfd == AT_FDCWD || (path && path[0] == '/')) {
        const char *rel = inroot(path, buf, sizeof buf);
        if (rel) {
            struct rep r = ask(OP_OPEN, -1, rel, 0, 0, flags, NULL);
            if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
            int fd = real_openat(dfd, path, flags, m);
            int e = errno;
            if (fd >= 0) track(fd, rel);
            errno = e;
            return fd;
        }
    }
    return real_openat(dfd, path, flags, m);
}
int openat(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_openat(dfd, path, flags, m);
}
int openat64(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_openat(dfd, path, flags, m);
}
static int mode2flags(const char *m) {
    int f = 0;
    if (m[0] == 'r') f = O_RDONLY; else if (m[0] == 'w') f = O_WRONLY | O_CREAT | O_TRUNC;
    else f = O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) f = (f & ~(O_WRONLY | O_RDONLY)) | O_RDWR;
    return f;
}
static FILE *do_fopen(const char *path, const char *mode, FILE *(*fn)(const char *, const char *)) {
    char buf[1024];
    const char *rel = inroot(path, buf, sizeof buf);
    if (!rel) return fn(path, mode);
    struct rep r = ask(OP_OPEN, -1, rel, 0, 0, mode2flags(mode), NULL);
    if (r.action == A_FAIL) { errno = (int)r.arg; return NULL; }
    FILE *f = fn(path, mode);
    int e = errno;
    if (f) track(fileno(f), rel);
    errno = e;
    return f;
}
FILE *fopen(const char *path, const char *mode) {
    REAL(FILE *, fopen, (const char *, const char *));
    return do_fopen(path, mode, real_fopen);
}
FILE *fopen64(const char *path, const char *mode) {
    REAL(FILE *, fopen64, (const char *, const char *));
    return do_fopen(path, mode, real_fopen64);
}
int fclose(FILE *f) {
    REAL(int, fclose, (FILE *));
    int fd = f ? fileno(f) : -1;
    if (istracked(fd)) {
        struct rep r = ask(OP_CLOSE, fd, fdpath[fd], 0, 0, 0, NULL);
        tracked[fd] = 0;
        int rc = real_fclose(f);
        if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
        return rc;
    }
    return real_fclose(f);
}
int close(int fd) {
    REAL(int, close, (int));
    if (istracked(fd)) {
        struct rep r = ask(OP_CLOSE, fd, fdpath[fd], 0, 0, 0, NULL);
        tracked[fd] = 0;
        int rc = real_close(fd);
        if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
        return rc;
    }
    if (active && fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return real_close(fd);
}

/* ---- data ---- */
#define RW(op, fd, off, len, data, PERFORM)                                             \
    struct rep r = ask(op, fd, fdpath[fd], off, (int64_t)(len), 0, data);               \
    if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }                          \
    size_t n_ = (len);                                                                  \
    if ((r.action == A_SHORT || r.action == A_TORN) && (size_t)r.arg < n_) n_ = (size_t)r.arg; \
    ssize_t got = PERFORM;                                                              \
    if (r.action == A_TORN) die(137);                                                   \
    return got;

static int64_t pos(int fd) { int64_t p = syscall(SYS_lseek, fd, 0, SEEK_CUR); return p; }

ssize_t read(int fd, void *b, size_t len) {
    REAL(ssize_t, read, (int, void *, size_t));
    if (!istracked(fd)) return real_read(fd, b, len);
    RW(OP_READ, fd, pos(fd), len, NULL, real_read(fd, b, n_))
}
ssize_t write(int fd, const void *b, size_t len) {
    REAL(ssize_t, write, (int, const void *, size_t));
    if (!istracked(fd)) return real_write(fd, b, len);
    RW(OP_WRITE, fd, pos(fd), len, b, real_write(fd, b, n_))
}
ssize_t pread(int fd, void *b, size_t len, off_t o) {
    REAL(ssize_t, pread, (int, void *, size_t, off_t));
    if (!istracked(fd)) return real_pread(fd, b, len, o);
    RW(OP_READ, fd, o, len, NULL, real_pread(fd, b, n_, o))
}
ssize_t pread64(int fd, void *b, size_t len, off64_t o) {
    REAL(ssize_t, pread64, (int, void *, size_t, off64_t));
    if (!istracked(fd)) return real_pread64(fd, b, len, o);
    RW(OP_READ, fd, o, len, NULL, real_pread64(fd, b, n_, o))
}
ssize_t pwrite(int fd, const void *b, size_t len, off_t o) {
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
    if (!istracked(fd)) return real_pwrite(fd, b, len, o);
    RW(OP_WRITE, fd, o, len, b, real_pwrite(fd, b, n_, o))
}
ssize_t pwrite64(int fd, const void *b, size_t len, off64_t o) {
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
    if (!istracked(fd)) return real_pwrite64(fd, b, len, o);
    RW(OP_WRITE, fd, o, len, b, real_pwrite64(fd, b, n_, o))
}
static size_t iovlen(const struct iovec *v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
static ssize_t part_iov(int fd, const struct iovec *v, int n, size_t cap, int wr) {
    /* first cap bytes, buffer by buffer */
    ssize_t done = 0;
    for (int i = 0; i < n && cap > 0; i++) {
        size_t l = v[i].iov_len < cap ? v[i].iov_len : cap;
        if (!l) continue;
        long k = wr ? syscall(SYS_write, fd, v[i].iov_base, l) : syscall(SYS_read, fd, v[i].iov_base, l);
        if (k < 0) return done ? done : -1;
        done += k; cap -= (size_t)k;
        if ((size_t)k < l) break;
    }
    return done;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    if (!istracked(fd)) return real_writev(fd, v, n);
    uint32_t c = 0;
    (void)c;
    RW(OP_WRITE, fd, pos(fd), iovlen(v, n), NULL, part_iov(fd, v, n, n_, 1))
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, readv, (int, const struct iovec *, int));
    if (!istracked(fd)) return real_readv(fd, v, n);
    RW(OP_READ, fd, pos(fd), iovlen(v, n), NULL, part_iov(fd, v, n, n_, 0))
}
static int do_trunc(int fd, off64_t len) {
    struct rep r = ask(OP_TRUNC, fd, fdpath[fd], (int64_t)len, 0, 0, NULL);
    if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
    return (int)syscall(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t len) {
    REAL(int, ftruncate, (int, off_t));
    return istracked(fd) ? do_trunc(fd, len) : real_ftruncate(fd, len);
}
int ftruncate64(int fd, off64_t len) {
    REAL(int, ftruncate64, (int, off64_t));
    return istracked(fd) ? do_trunc(fd, len) : real_ftruncate64(fd, len);
}
static int do_sync(int fd, long nr) {
    struct rep r = ask(OP_SYNC, fd, fdpath[fd], 0, 0, 0, NULL);
    if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
    return (int)syscall(nr, fd);
}
int fsync(int fd) { return istracked(fd) ? do_sync(fd, SYS_fsync) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return istracked(fd) ? do_sync(fd, SYS_fdatasync) : (int)syscall(SYS_fdatasync, fd); }
int flock(int fd, int how) {
    if (istracked(fd)) {
        struct rep r = ask(OP_LOCK, fd, fdpath[fd], 0, 0, how, NULL);
        if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }
    }
    return (int)syscall(SYS_flock, fd, how);
}

/* ---- names ---- */
#define NAMEOP(op, path, extra, CALL)                                     \
    char buf[1024];                                                       \
    const char *rel = inroot(path, buf, sizeof buf);                      \
    if (rel) {                                                            \
        struct rep r = ask(op, -1, rel, 0, 0, extra, NULL);               \
        if (r.action == A_FAIL) { errno = (int)r.arg; return -1; }        \
    }                                                                     \
    return CALL;

int unlink(const char *p) { REAL(int, unlink, (const char *)); NAMEOP(OP_UNLINK, p, 0, real_unlink(p)) }
int remove(const char *p) { REAL(int, remove, (const char *)); NAMEOP(OP_UNLINK, p, 0, real_remove(p)) }
int unlinkat(int d, const char *p, int fl) { REAL(int, unlinkat, (int, const char *, int)); NAMEOP(OP_UNLINK, p, fl, real_unlinkat(d, p, fl)) }
int rename(const char *a, const char *b) { REAL(int, rename, (const char *, const char *)); NAMEOP(OP_RENAME, b, 0, real_rename(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, (int, const char *, int, const char *)); NAMEOP(OP_RENAME, b, 0, real_renameat(d, a, e, b)) }
int link(const char *a, const char *b) { REAL(int, link, (const char *, const char *)); NAMEOP(OP_RENAME, b, 1, real_link(a, b)) }
int linkat(int d, const char *a, int e, const char *b, int fl) { REAL(int, linkat, (int, const char *, int, const char *, int)); NAMEOP(OP_RENAME, b, 1, real_linkat(d, a, e, b, fl)) }
int symlink(const char *a, const char *b) { REAL(int, symlink, (const char *, const char *)); NAMEOP(OP_RENAME, b, 2, real_symlink(a, b)) }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, (const char *, mode_t)); NAMEOP(OP_MKDIR, p, m, real_mkdir(p, m)) }
int truncate(const char *p, off_t l) { REAL(int, truncate, (const char *, off_t)); NAMEOP(OP_TRUNC, p, l, real_truncate(p, l)) }
int stat(const char *p, struct stat *s) { REAL(int, stat, (const char *, struct stat *)); NAMEOP(OP_STAT, p, 0, real_stat(p, s)) }
int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, (const char *, struct stat64 *)); NAMEOP(OP_STAT, p, 0, real_stat64(p, s)) }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, (const char *, struct stat *)); NAMEOP(OP_STAT, p, 1, real_lstat(p, s)) }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, (const char *, struct stat64 *)); NAMEOP(OP_STAT, p, 1, real_lstat64(p, s)) }
int fstatat(int d, const char *p, struct stat *s, int fl) {
    REAL(int, fstatat, (int, const char *, struct stat *, int));
    if (d != AT_FDCWD && !(p && p[0] == '/')) return real_fstatat(d, p, s, fl);
    NAMEOP(OP_STAT, p, fl, real_fstatat(d, p, s, fl))
}
int fstatat64(int d, const char *p, struct stat64 *s, int fl) {
    REAL(int, fstatat64, (int, const char *, struct stat64 *, int));
    if (d != AT_FDCWD && !(p && p[0] == '/')) return real_fstatat64(d, p, s, fl);
    NAMEOP(OP_STAT, p, fl, real_fstatat64(d, p, s, fl))
}
int access(const char *p, int m) { REAL(int, access, (const char *, int)); NAMEOP(OP_STAT, p, m, real_access(p, m)) }
int faccessat(int d, const char *p, int m, int fl) { REAL(int, faccessat, (int, const char *, int, int)); NAMEOP(OP_STAT, p, m, real_faccessat(d, p, m, fl)) }
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict s) {
    REAL(int, statx, (int, const char *restrict, int, unsigned, struct statx *restrict));
    if (d != AT_FDCWD && !(p && p[0] == '/')) return real_statx(d, p, fl, mask, s);
    NAMEOP(OP_STAT, p, fl, real_statx(d, p, fl, mask, s))
}

/* ---- time ---- */
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clock_on || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)
        return (int)syscall(SYS_clock_gettime, id, ts);
    int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? real_ns : mono_ns;
    mono_ns += tick_ns;
    real_ns += tick_ns;
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!clock_on) return (int)syscall(SYS_nanosleep, a, b);
    mono_ns += a->tv_sec * 1000000000LL + a->tv_nsec;
    real_ns += a->tv_sec * 1000000000LL + a->tv_nsec;
    return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
    if (!clock_on) return (int)syscall(SYS_clock_nanosleep, id, fl, a, b);
    int64_t v = a->tv_sec * 1000000000LL + a->tv_nsec;
    if (fl & TIMER_ABSTIME) { int64_t d = v - mono_ns; v = d > 0 ? d : 0; }
    mono_ns += v;
    real_ns += v;
    return 0;
}
