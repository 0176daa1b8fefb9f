// C26: the log functions themselves. LINES calls with any level, index (COLOR: of the kinds that are coloured differently), error number.
#ifndef CALLS
#define CALLS 2
#endif
#define VP_NPAY 1
#define VP_NDGRAM 1
#define VP_LOG
#include "vp.h"
#include <errno.h>
#include "vp_world.h"
#include "rmc_log.h"
extern int _rmc_log_use_color;
void rmc_log_set_file(FILE* file);
static char fname[4] = "f.c";
void harness(void)
{
    static int file;
    uint32_t i, c, lines = 0;
    int level = 0;
    rmc_log_set_file((FILE*) &file);
    vp_tty = vp_flag();
    vp_now = vp_u64();
    for (i = 0; i < CALLS; ++i) {
        uint64_t t;
        uint8_t e = vp_u8(), n = vp_u8();
        errno = e;
        vp_log_errno = n;
        switch (vp_pick(0, 4)) {
        case 0: {
            int l = (int) vp_u32();
            int r = rmc_set_log_level(l);
            VP_REACH(r, "an illegal log level");
            VP_ASSERT(r == (l < RMC_LOG_LEVEL_NONE || l > RMC_LOG_LEVEL_DEBUG), "exactly the log levels there are can be set");
            if (r) lines++;
            else level = l;
            VP_ASSERT(_rmc_log_level == level, "an illegal log level changes nothing");
            break;
        }
        case 1: {
            uint16_t ind = vp_u16();
            int l = (int) vp_u32();
            rmc_log(l, "f", fname, (int) vp_u32() & 0xffff, ind, "%d %s", l, fname);
            lines++;
            VP_WITNESS("a line is logged");
            VP_REACH(ind == RMC_MULTICAST_INDEX && _rmc_log_use_color, "a coloured line about multicast");
            break;
        }
        case 2:
            c = vp_pick(0, 2);
            rmc_log_use_color((int) c - 1);
            break;
        case 3:
            t = vp_now;
            rmc_log_set_start_time();
            VP_ASSERT(rmc_log_get_start_time() == t, "the start time is now");
            break;
        case 4: {
            int l = vp_pick(0, 7), want;
            want = level >= RMC_LOG_LEVEL_WARNING;
            RMC_LOG_WARNING("%d", l);
            lines += want;
            want = level >= RMC_LOG_LEVEL_DEBUG;
            RMC_LOG_INDEX_DEBUG(l, "%d", l);
            lines += want;
            break;
        }
        }
        VP_ASSERT(vp_log_lines == lines, "what the log level allows is logged, a line each");
        VP_ASSERT(errno == e, "the error number survives logging");
    }
}
