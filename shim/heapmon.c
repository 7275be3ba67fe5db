/* LD_PRELOAD heap monitor: looks for secrets in heap blocks at the moment the
 * program gives them back (free/realloc) and in the blocks still live at exit.
 *
 * HEAPMON_SECRETS  hex strings separated by ','; every byte XORed with 0x5a, so
 *                  that the needles themselves are never in memory in clear.
 * HEAPMON_LOG      file the findings and the statistics are appended to.
 *
 * SIGUSR1 (sent while the program waits for input) has the live blocks searched
 * at that moment; the log gets a line SCANNED afterwards.
 *
 * Every realloc moves the block (which any allocator may do), so that a buffer
 * holding a secret cannot grow without the abandoned copy being looked at.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

#define MAXSEC 160
#define MAXLEN 64
static unsigned char sec[MAXSEC][MAXLEN]; /* XORed */
static int seclen[MAXSEC];
static int nsec = 0;
static int logfd = -1;
static volatile int ready = 0;
static __thread int busy = 0;
static unsigned long n_alloc, n_free, n_realloc, n_bytes, n_found;

/* live set: open addressing */
#define TBL (1u << 17)
static void *tbl[TBL];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static unsigned h(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (TBL - 1); }
static void live_add(void *p) {
    if (!p) return;
    pthread_mutex_lock(&mu);
    unsigned i = h(p), n = 0;
    while (tbl[i] && tbl[i] != (void *)1 && n++ < TBL) i = (i + 1) & (TBL - 1);
    if (n < TBL) tbl[i] = p;
    pthread_mutex_unlock(&mu);
}
static void live_del(void *p) {
    pthread_mutex_lock(&mu);
    unsigned i = h(p), n = 0;
    while (tbl[i] && n++ < TBL) {
        if (tbl[i] == p) { tbl[i] = (void *)1; break; }
        i = (i + 1) & (TBL - 1);
    }
    pthread_mutex_unlock(&mu);
}

static void out(const char *fmt, ...) {
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (logfd >= 0 && n > 0) { ssize_t r = write(logfd, buf, n); (void)r; }
}

static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

/* needles by their first two bytes */
static unsigned char head[65536]; /* index + 1 */
static unsigned char chain[MAXSEC];

static void scan(const unsigned char *p, size_t n, const char *what) {
    unsigned char seen[MAXSEC];
    if (n < 2) return;
    memset(seen, 0, sizeof seen);
    for (size_t i = 0; i + 1 < n; i++) {
        unsigned k = head[p[i] | p[i + 1] << 8];
        for (; k; k = chain[k - 1]) {
            size_t len = (size_t)seclen[k - 1], j = 2;
            if (seen[k - 1] || n - i < len) continue;
            while (j < len && p[i + j] == (unsigned char)(sec[k - 1][j] ^ 0x5a)) j++;
            if (j < len) continue;
            seen[k - 1] = 1;
            n_found++;
            out("FOUND %s secret=%d block=%zu offset=%zu\n", what, (int)k - 1, n, i);
            void *bt[40];
            int d = backtrace(bt, 40);
            if (logfd >= 0) backtrace_symbols_fd(bt, d, logfd);
            out("END\n");
        }
    }
}

static unsigned long scan_live(const char *what) {
    unsigned long live = 0;
    for (unsigned i = 0; i < TBL; i++) {
        void *p = tbl[i];
        if (!p || p == (void *)1) continue;
        live++;
        scan(p, malloc_usable_size(p), what);
    }
    return live;
}

static void on_signal(int sig) {
    int e = errno, b = busy;
    busy = 1;
    unsigned long live = scan_live("live");
    out("SCANNED live=%lu\n", live);
    busy = b;
    errno = e;
}

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("HEAPMON_SECRETS"), *l = getenv("HEAPMON_LOG");
    if (!s || !l) return;
    while (*s && nsec < MAXSEC) {
        int n = 0;
        while (*s && *s != ',' && n < MAXLEN) {
            sec[nsec][n++] = (unsigned char)(hexv(s[0]) * 16 + hexv(s[1]));
            s += 2;
        }
        seclen[nsec] = n;
        if (n >= 2) {
            unsigned char *e = &head[(sec[nsec][0] ^ 0x5a) | (sec[nsec][1] ^ 0x5a) << 8];
            chain[nsec] = *e;
            *e = (unsigned char)(nsec + 1);
            nsec++;
        }
        while (*s && *s != ',') s++;
        if (*s == ',') s++;
    }
    int fd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); if (logfd < 0) logfd = fd; else close(fd); }
    void *bt[4];
    busy = 1;
    backtrace(bt, 4); /* loads libgcc now */
    busy = 0;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &sa, NULL);
    ready = 1;
}

void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (ready && !busy) { __sync_fetch_and_add(&n_alloc, 1); live_add(p); }
    return p;
}
void *calloc(size_t a, size_t b) {
    void *p = __libc_calloc(a, b);
    if (ready && !busy) { __sync_fetch_and_add(&n_alloc, 1); live_add(p); }
    return p;
}
void *memalign(size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (ready && !busy) { __sync_fetch_and_add(&n_alloc, 1); live_add(p); }
    return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) {
    void *p = memalign(a, n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
void free(void *p) {
    if (!p) return;
    if (ready && !busy) {
        busy = 1;
        size_t n = malloc_usable_size(p);
        __sync_fetch_and_add(&n_free, 1);
        __sync_fetch_and_add(&n_bytes, n);
        scan(p, n, "free");
        live_del(p);
        memset(p, 0xdd, n); /* stale content must not be taken for a new leak */
        busy = 0;
    }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return NULL; }
    void *q = malloc(n);
    if (!q) return NULL;
    size_t o = malloc_usable_size(p);
    memcpy(q, p, o < n ? o : n);
    if (ready && !busy) {
        busy = 1;
        __sync_fetch_and_add(&n_realloc, 1);
        __sync_fetch_and_add(&n_bytes, o);
        scan(p, o, "realloc");
        live_del(p);
        memset(p, 0xdd, o);
        busy = 0;
    }
    __libc_free(p);
    return q;
}

__attribute__((destructor)) static void fini(void) {
    if (!ready) return;
    busy = 1;
    unsigned long live = scan_live("live-at-exit");
    out("STATS alloc=%lu free=%lu realloc=%lu bytes=%lu live=%lu secrets=%d found=%lu\n", n_alloc, n_free,
        n_realloc, n_bytes, live, nsec, n_found);
    ready = 0;
}
