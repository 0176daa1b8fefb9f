// A subscriber of NPUB publishers: any history of K arrivals, timeouts, drains and disconnects.
#include "vp_submodel.h"
#ifndef DT
#define DT vp_range(0, 3 * RMC_DEFAULT_ACK_TIMEOUT)
#endif
#ifndef OPS
#define OPS 5
#endif
static int switched;
static void step(int i)
{
    uint8_t op = vp_range8(0, OPS), p = NPUB > 1 ? vp_range8(0, NPUB - 1) : 0, w;
    switch (op) {
    case 0: case 1:
        w = vp_range8(0, NW - 1);
        if (op == 1 && !s_up[p]) VP_STOP();
        s_arrive(p, w, op);
        break;
    case 2:
        s_timeout(DT);
        break;
    case 3:
        if (!s_up[p]) VP_STOP();
        if (CHK == 18) VP_ASSERT(!s_expect_pending(p) || (vp_poll_act[VP_SUB + p] & RMC_POLLWRITE), "watched for writing while bytes wait");
        s_drain(p);
        break;
    case 4:
        s_app();
        break;
    case 6:
        s_switch();
        switched += s_active;
        break;
    case 5:
        if (!s_active) VP_STOP();
        if (s_up[p]) s_disconnect(p, vp_flag());
        else { int q; for (q = 0; q < p; ++q) if (!s_up[q]) VP_STOP(); s_app(); s_connect(p); }
        break;
    }
}
void harness(void)
{
    int i, p, w;
    s_start();
    for (i = 0; i < K; ++i) {
        step(i);
        s_check();
    }
    s_app();
    s_timeout(RMC_DEFAULT_ACK_TIMEOUT);
    for (p = 0; p < NPUB; ++p)
        if (s_up[p]) {
            s_drain(p);
            for (w = 0; w < NW; ++w) S_ASSERT(4, !s_must[p][w] || s_acked[p][w], "no received packet is left out");
        }
    VP_WITNESS("end of the history");
    VP_REACH(OPS < 6 || (switched && s_up[0] && s_next[0]), "received after a new start");
    VP_REACH(s_first[0] == 0 && s_next[0] == NW, "every packet delivered");
}
