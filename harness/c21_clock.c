// C21: the clock, for any time the system's monotonic clock reports.
#define VP_OWN_CLOCK
#include "vp_env.h"
#include <time.h>
#include <sys/time.h>
static struct timespec sys;
int clock_gettime(clockid_t id, struct timespec* t)
{
    VP_ASSERT(id == CLOCK_MONOTONIC, "the system's monotonic clock is asked");
    *t = sys;
    return 0;
}
int gettimeofday(struct timeval* t, void* z) { VP_ASSERT(0, "the system's monotonic clock is asked"); return -1; }
time_t time(time_t* t) { VP_ASSERT(0, "the system's monotonic clock is asked"); return 0; }
void harness(void)
{
    int64_t r, q;
    sys.tv_sec = vp_u64();
    sys.tv_nsec = vp_range(0, 999999999);
    VP_ASSUME(sys.tv_sec >= 0 && sys.tv_sec < INT64_MAX / 1000000 - 1);
    r = rmc_usec_monotonic_timestamp();
    // the result is the time divided by 1000, rounded down; that never decreases as the time grows
    q = r - (int64_t) sys.tv_sec * 1000000;
    VP_ASSERT(q >= 0 && q < 1000000, "the seconds are counted in full");
    VP_ASSERT(q * 1000 <= sys.tv_nsec, "rounded down");
    VP_ASSERT(q * 1000 + 1000 > sys.tv_nsec, "to the microsecond");
    VP_REACH(sys.tv_nsec % 1000 == 999, "a time between microseconds");
    VP_REACH(sys.tv_sec > 0xffffffffu, "a late time");
    VP_WITNESS("end");
}
