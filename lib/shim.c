/* Virtual clock, LD_PRELOADed below the code under test.  Disabled until
 * vt_enable(); then every clock reading returns base + offset and moves time on
 * by `step` ns.  vt_spin: too many readings without sleeping -> SIGUSR2. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <sys/syscall.h>
static int on; static long long vt; static long long step; static long long reads, limit; static long long mono_off;
static int realcg(clockid_t c, struct timespec *ts) { return syscall(SYS_clock_gettime, c, ts); }
void vt_enable(long long ns, long long st, long long lim) { vt = ns; step = st; limit = lim; reads = 0; mono_off = ns - 1000000000LL * 100000; on = 1; }
void vt_disable(void) { on = 0; }
int vt_on(void) { return on; }
long long vt_get(void) { return vt; }
void vt_set(long long ns) { vt = ns; reads = 0; }
void vt_add(long long ns) { vt += ns; reads = 0; }
void vt_step(long long st) { step = st; }
static long long tick(void) {
    long long r = vt; vt += step;
    if (limit && ++reads == limit) kill(getpid(), SIGUSR2);
    return r;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!on || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_BOOTTIME && c != CLOCK_MONOTONIC_RAW && c != CLOCK_TAI))
        return realcg(c, ts);
    long long r = tick();
    if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW) r -= mono_off;
    ts->tv_sec = r / 1000000000LL; ts->tv_nsec = r % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
