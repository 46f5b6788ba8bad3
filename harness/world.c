/* Another world for the process: every environment variable exists, and it is another year.
   LD_PRELOAD; the harness's own variables and those of Rust's runtime stay as they are. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static const char *other(void) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    return real("WORLD_VALUE");
}
char *getenv(const char *n) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    char *v = real(n);
    if (v || !strncmp(n, "RUST", 4) || !strncmp(n, "HANG", 4) || !strcmp(n, "PLACE") || !strncmp(n, "VERIF", 5) || !strncmp(n, "LD_", 3) || !strncmp(n, "WORLD", 5))
        return v;
    return (char *)other();
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) t->tv_sec += 400000000;
    return r;
}
