/* Stand-ins for what a program can ask its surroundings, for running the driver under: every environment
 * variable has the value of SV_ENV (where given; the run time's own are left alone), SV_TTY says whether
 * every stream is a terminal, and SV_CLOCK (where given) what time it is: seconds, and ten more every time. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

static char *real(const char *name) {
    static char *(*next)(const char *);
    if (!next) next = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    return next ? next(name) : NULL;
}

char *getenv(const char *name) {
    static const char *const own[] = {"RUST_", "LD_", "MALLOC_", "GLIBC_", "GCONV_", "SV_"};
    for (size_t i = 0; i < sizeof own / sizeof *own; i++)
        if (!strncmp(name, own[i], strlen(own[i]))) return real(name);
    char *v = real("SV_ENV");
    return v ? v : real(name);
}

int isatty(int fd) {
    (void)fd;
    char *v = real("SV_TTY");
    return v && *v == '1';
}

int clock_gettime(clockid_t id, struct timespec *t) {
    static int (*next)(clockid_t, struct timespec *);
    static long calls;
    if (!next) next = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    char *v = real("SV_CLOCK");
    if (!v || id != CLOCK_REALTIME) return next(id, t);
    t->tv_sec = atol(v) + 10 * __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);
    t->tv_nsec = 0;
    return 0;
}
