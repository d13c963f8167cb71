/* preloaded: the real time clock shows what VERIF_CLOCK says */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

int clock_gettime(clockid_t id, struct timespec *t) {
    const char *s = getenv("VERIF_CLOCK");
    if (s && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        t->tv_sec = atoll(s);
        t->tv_nsec = 123456789;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, t);
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
