/* What a program learns from outside its arguments, files and input:
   OUTSIDE_PASSWD=0     the user database knows nobody
   OUTSIDE_LOG=file     names of the environment variables asked for, one per line
   OUTSIDE_VALUE=text   the value of each variable asked for which OUTSIDE_KEEP (":A:B:") does not list
   OUTSIDE_CLOCK=t:s    the clocks start at t and advance by s seconds with every look at them */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pwd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static char *own(const char *n)
{
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return 0;
}

static void note(const char *n)
{
    char *f = own("OUTSIDE_LOG");
    if (!f) return;
    int fd = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd < 0) return;
    dprintf(fd, "%s\n", n);
    close(fd);
}

char *getenv(const char *n)
{
    int e = errno;
    note(n);
    errno = e;
    char *v = own("OUTSIDE_VALUE"), *k = own("OUTSIDE_KEEP"), *r = own(n);
    if (v && !r) {
        char b[300];
        snprintf(b, sizeof b, ":%.200s:", n);
        if (!k || !strstr(k, b)) return v;
    }
    return r;
}
char *secure_getenv(const char *n) { return getenv(n); }

int getpwuid_r(uid_t u, struct passwd *p, char *b, size_t l, struct passwd **r)
{
    char *o = own("OUTSIDE_PASSWD");
    if (o && *o == '0') { *r = 0; return 0; }
    int (*f)(uid_t, struct passwd *, char *, size_t, struct passwd **) = dlsym(RTLD_NEXT, "getpwuid_r");
    return f(u, p, b, l, r);
}

static long long looks;
static int fake(struct timespec *t)
{
    char *o = own("OUTSIDE_CLOCK");
    if (!o) return 0;
    long long start = 0, step = 0;
    sscanf(o, "%lld:%lld", &start, &step);
    t->tv_sec = start + step * looks++;
    t->tv_nsec = 5;
    return 1;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (fake(t)) return 0;
    int (*f)(clockid_t, struct timespec *) = dlsym(RTLD_NEXT, "clock_gettime");
    return f(c, t);
}
int gettimeofday(struct timeval *t, void *z)
{
    struct timespec s;
    if (fake(&s)) { t->tv_sec = s.tv_sec; t->tv_usec = 5; return 0; }
    int (*f)(struct timeval *, void *) = dlsym(RTLD_NEXT, "gettimeofday");
    return f(t, z);
}
time_t time(time_t *t)
{
    struct timespec s;
    if (!fake(&s)) { time_t (*f)(time_t *) = dlsym(RTLD_NEXT, "time"); return f(t); }
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
