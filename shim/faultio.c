/* LD_PRELOAD monitor and fault injector for calls that change files below a directory.
 *
 * FAULTIO_DIR   only calls touching paths below it count
 * FAULTIO_LOG   every counted call is appended here: "<n> <call> <path> [fault]"
 * FAULTIO_AT    number of the call to disturb (1-based; 0: none)
 * FAULTIO_MODE  kill     SIGKILL before the call
 *               killafter SIGKILL after the call
 *               partkill  half of a write, then SIGKILL
 *               fail     the call fails with FAULTIO_ERRNO
 *               failall  this and all following calls of kind open-for-write/write/sync fail (disk full)
 *               partfail half of a write succeeds, all following writes fail
 *               short    half of a write succeeds, then everything works
 *               eintr    a write fails once with EINTR
 * FAULTIO_DENY  creating files always fails with this error, in addition (not counted as a call)
 * FAULTIO_DELAY up to so many microseconds pass before each call (how many is random)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static char dir[PATH_MAX];
static int logfd = -1, at = 0, err_no = ENOSPC, n = 0, on = 0, failing = 0;
static char mode[16];
static long delay = 0;
static int deny = 0;
static unsigned long long rnd;

__attribute__((constructor)) static void init(void) {
    const char *d = getenv("FAULTIO_DIR"), *l = getenv("FAULTIO_LOG");
    if (!d || !l) return;
    snprintf(dir, sizeof dir, "%s", d);
    if (getenv("FAULTIO_AT")) at = atoi(getenv("FAULTIO_AT"));
    if (getenv("FAULTIO_DENY")) deny = atoi(getenv("FAULTIO_DENY"));
    if (getenv("FAULTIO_DELAY")) delay = atol(getenv("FAULTIO_DELAY"));
    rnd = (unsigned long long)getpid() * 2654435761u + time(NULL);
    if (getenv("FAULTIO_ERRNO")) err_no = atoi(getenv("FAULTIO_ERRNO"));
    snprintf(mode, sizeof mode, "%s", getenv("FAULTIO_MODE") ? getenv("FAULTIO_MODE") : "");
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
    on = logfd >= 0;
}

static int below(const char *p) { size_t k = strlen(dir); return !strncmp(p, dir, k) && (p[k] == '/' || !p[k]); }
static const char *full(int dfd, const char *p, char *buf) {
    if (!p) return "";
    if (p[0] == '/') return p;
    char base[PATH_MAX];
    ssize_t r;
    if (dfd == AT_FDCWD) r = getcwd(base, sizeof base) ? (ssize_t)strlen(base) : -1;
    else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        r = readlink(l, base, sizeof base - 1);
    }
    if (r < 0) return p;
    base[r] = 0;
    snprintf(buf, PATH_MAX * 2, "%s/%s", base, p);
    return buf;
}
static int fdpath(int fd, char *buf) {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(l, buf, PATH_MAX - 1);
    if (r < 0) return 0;
    buf[r] = 0;
    return below(buf);
}
static void logcall(const char *name, const char *path, const char *fault) {
    char b[PATH_MAX + 128];
    int k = snprintf(b, sizeof b, "%d %s %s %s\n", n, name, path, fault);
    syscall(SYS_write, logfd, b, k);
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

/* -1: proceed; 0: proceed and die afterwards; 1: fail with errno; 2: half */
static int event(const char *name, const char *path, int is_write) {
    n++;
    if (delay) {
        rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
        usleep((rnd >> 33) % delay);
    }
    int hit = at && n == at;
    if (failing && (is_write || !strcmp(name, "open") || strstr(name, "sync"))) {
        logcall(name, path, "FAIL");
        errno = err_no;
        return 1;
    }
    if (!hit) { logcall(name, path, ""); return -1; }
    logcall(name, path, mode);
    if (!strcmp(mode, "kill")) die();
    if (!strcmp(mode, "killafter")) return 0;
    if (!strcmp(mode, "fail")) { errno = err_no; return 1; }
    if (!strcmp(mode, "failall")) { failing = 1; errno = err_no; return 1; }
    if (!strcmp(mode, "eintr")) { if (!is_write) return -1; errno = EINTR; return 1; }
    if (!strcmp(mode, "partkill") || !strcmp(mode, "partfail") || !strcmp(mode, "short")) {
        if (!is_write) { if (!strcmp(mode, "partkill")) return 0; if (!strcmp(mode, "partfail")) failing = 1; return -1; }
        if (!strcmp(mode, "partfail")) failing = 1;
        return 2;
    }
    return -1;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define AROUND(name, path, is_write, call, failret) do { \
    int e_ = event(name, path, is_write); \
    if (e_ == 1) return failret; \
    __auto_type r_ = call; \
    if (e_ == 0) die(); \
    return r_; } while (0)

#define OPENBODY(symbol, dfd, callargs) \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
    char b[PATH_MAX * 2]; const char *f = full(dfd, p, b); \
    if (!on || !below(f) || !(fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) return real callargs; \
    if (deny && (fl & O_CREAT) && syscall(SYS_faccessat, AT_FDCWD, f, F_OK)) { errno = deny; return -1; } \
    AROUND((fl & O_TRUNC) ? "open-truncate" : (fl & O_CREAT) ? "open-create" : "open", f, 0, real callargs, -1)

int open(const char *p, int fl, ...) { REAL(int, "open", const char *, int, ...); OPENBODY("open", AT_FDCWD, (p, fl, m)); }
int open64(const char *p, int fl, ...) { REAL(int, "open64", const char *, int, ...); OPENBODY("open64", AT_FDCWD, (p, fl, m)); }
int openat(int d, const char *p, int fl, ...) { REAL(int, "openat", int, const char *, int, ...); OPENBODY("openat", d, (d, p, fl, m)); }
int openat64(int d, const char *p, int fl, ...) { REAL(int, "openat64", int, const char *, int, ...); OPENBODY("openat64", d, (d, p, fl, m)); }
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_WRONLY | O_CREAT | O_TRUNC, m); }

ssize_t write(int fd, const void *p, size_t k) {
    char f[PATH_MAX];
    if (!on || !fdpath(fd, f)) return syscall(SYS_write, fd, p, k);
    int e = event("write", f, 1);
    if (e == 1) return -1;
    if (e == 2) {
        ssize_t r = syscall(SYS_write, fd, p, k > 1 ? k / 2 : k);
        if (!strcmp(mode, "partkill")) die();
        return r;
    }
    ssize_t r = syscall(SYS_write, fd, p, k);
    if (e == 0) die();
    return r;
}
ssize_t pwrite64(int fd, const void *p, size_t k, off_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off_t);
    char f[PATH_MAX];
    if (!on || !fdpath(fd, f)) return real(fd, p, k, o);
    AROUND("write", f, 1, real(fd, p, k, o), -1);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    char f[PATH_MAX];
    if (!on || !fdpath(fd, f)) return real(fd, v, c);
    AROUND("write", f, 1, real(fd, v, c), -1);
}
#define FDCALL(name, args, pass, ...) int name args { REAL(int, #name, __VA_ARGS__); char f[PATH_MAX]; \
    if (!on || !fdpath(fd, f)) return real pass; AROUND(#name, f, 0, real pass, -1); }
FDCALL(fsync, (int fd), (fd), int)
FDCALL(fdatasync, (int fd), (fd), int)
FDCALL(ftruncate, (int fd, off_t o), (fd, o), int, off_t)
FDCALL(ftruncate64, (int fd, off_t o), (fd, o), int, off_t)
FDCALL(fchmod, (int fd, mode_t m), (fd, m), int, mode_t)
FDCALL(fchown, (int fd, uid_t u, gid_t g), (fd, u, g), int, uid_t, gid_t)
FDCALL(posix_fallocate, (int fd, off_t a, off_t b), (fd, a, b), int, off_t, off_t)

#define PATHCALL(name, args, pass, path, ...) int name args { REAL(int, #name, __VA_ARGS__); char b[PATH_MAX * 2]; \
    const char *f = full(AT_FDCWD, path, b); if (!on || !below(f)) return real pass; AROUND(#name, f, 0, real pass, -1); }
PATHCALL(truncate, (const char *p, off_t o), (p, o), p, const char *, off_t)
PATHCALL(truncate64, (const char *p, off_t o), (p, o), p, const char *, off_t)
PATHCALL(chmod, (const char *p, mode_t m), (p, m), p, const char *, mode_t)
PATHCALL(rename, (const char *p, const char *q), (p, q), q, const char *, const char *)
PATHCALL(renameat, (int d, const char *p, int e, const char *q), (d, p, e, q), q, int, const char *, int, const char *)
PATHCALL(renameat2, (int d, const char *p, int e, const char *q, unsigned g), (d, p, e, q, g), q, int, const char *, int, const char *, unsigned)
PATHCALL(unlink, (const char *p), (p), p, const char *)
PATHCALL(unlinkat, (int d, const char *p, int g), (d, p, g), p, int, const char *, int)
PATHCALL(link, (const char *p, const char *q), (p, q), q, const char *, const char *)
PATHCALL(linkat, (int d, const char *p, int e, const char *q, int g), (d, p, e, q, g), q, int, const char *, int, const char *, int)
PATHCALL(mkdir, (const char *p, mode_t m), (p, m), p, const char *, mode_t)

ssize_t copy_file_range(int a, off64_t *oa, int fd, off64_t *ob, size_t k, unsigned g) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    char f[PATH_MAX];
    if (!on || !fdpath(fd, f)) return real(a, oa, fd, ob, k, g);
    int e = event("copy", f, 1);
    if (e == 1) return -1;
    ssize_t r = real(a, oa, fd, ob, e == 2 ? (k > 1 ? k / 2 : k) : k, g);
    if (e == 0 || (e == 2 && !strcmp(mode, "partkill"))) die();
    return r;
}
ssize_t sendfile64(int fd, int a, off64_t *o, size_t k) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    char f[PATH_MAX];
    if (!on || !fdpath(fd, f)) return real(fd, a, o, k);
    AROUND("copy", f, 1, real(fd, a, o, k), -1);
}
