// Preloaded into xtask: sleeping takes no time but is told to the simulator, and
// files of the workspace it was built in are those of the simulated one.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>

static void tell(const struct timespec *t) {
    const char *at = getenv("SIM_SOCK");
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    char buf[64];
    if (!at || !t) return;
    strncpy(a.sun_path, at, sizeof a.sun_path - 1);
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    if (connect(s, (struct sockaddr *)&a, sizeof a) == 0) {
        int n = snprintf(buf, sizeof buf, "sleep%c%lld", 0, (long long)t->tv_sec * 1000 + t->tv_nsec / 1000000);
        if (write(s, buf, n) < 0) {}
        shutdown(s, SHUT_WR);
        if (read(s, buf, 1) < 0) {}
    }
    close(s);
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    tell(t);
    if (r) r->tv_sec = r->tv_nsec = 0;
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *r) {
    tell(t);
    return 0;
}

static const char *moved(const char *path, char *buf, size_t n) {
    const char *from = getenv("SIM_BUILT_IN"), *to = getenv("SIM_ROOT");
    size_t k = from ? strlen(from) : 0;
    if (!path || !from || !to || strncmp(path, from, k) || (path[k] && path[k] != '/')) return path;
    snprintf(buf, n, "%s%s", to, path + k);
    return buf;
}
#define OPEN(name)                                                        \
    int name(const char *path, int flags, ...) {                          \
        static int (*real)(const char *, int, ...);                       \
        char buf[4096];                                                   \
        va_list l;                                                        \
        va_start(l, flags);                                               \
        int mode = va_arg(l, int);                                        \
        va_end(l);                                                        \
        if (!real) real = dlsym(RTLD_NEXT, #name);                        \
        return real(moved(path, buf, sizeof buf), flags, mode);           \
    }
OPEN(open)
OPEN(open64)
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict out) {
    static int (*real)(int, const char *, int, unsigned, struct statx *);
    char buf[4096];
    if (!real) real = dlsym(RTLD_NEXT, "statx");
    return real(dir, moved(path, buf, sizeof buf), flags, mask, out);
}
