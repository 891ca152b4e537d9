/* Virtual wall clock: interposes the libc wall-clock calls of the interpreter.
 * Off by default (calls pass through). vclock_set(sec, nsec) freezes CLOCK_REALTIME,
 * vclock_off() returns to the real clock. CLOCK_MONOTONIC and friends are untouched. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int on = 0, all = 0;
static volatile long long vsec = 0;
static volatile long vnsec = 0;
static volatile unsigned long long reads = 0;

void vclock_set(long long sec, long nsec) { vsec = sec; vnsec = nsec; on = 1; }
void vclock_off(void) { on = 0; }
/* Also freeze the monotonic and CPU clocks. */
void vclock_all(int yes) { all = yes; }
unsigned long long vclock_reads(void) { return reads; }

int clock_gettime(clockid_t clk, struct timespec *ts) {
    if (on && (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_TAI)) {
        reads++;
        ts->tv_sec = (time_t)vsec;
        ts->tv_nsec = vnsec;
        return 0;
    }
    if (on && all) {
        ts->tv_sec = 1000;
        ts->tv_nsec = 5;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, clk, ts);
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
