/* Interposes the realtime clock of libc, so that the monitors can stop it and
   move it: every way Python code has to read the wall clock goes through here.
   CLOCK_MONOTONIC and the like are left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

static long long frozen_ns = 0;        /* 0: the real clock */

void fsmon_set_time(long long ns) { frozen_ns = ns; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *) = 0;
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    if (frozen_ns && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = frozen_ns / 1000000000LL;
        ts->tv_nsec = frozen_ns % 1000000000LL;
        return 0;
    }
    return real(id, ts);
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}
