// C05: acknowledgements around the end of the connection's ring (WRAPS: all but the message's last byte left before), and
// acknowledgements that do not fit the connection buffer. Two publishers; the first one's buffer is filled by a control
// message up to FREE bytes; three separate packets (three intervals) wait for it, one for the other publisher.
#define K 8
#define NPUB 2
#define NW 5
#define CHK 22
#define VP_DGRAM_LEN 32
#define VP_STREAM (RMC_MAX_PACKET + 64)
#define S_BASE 1
#include "vp_submodel.h"
static uint8_t big[RMC_MAX_PACKET];

static void acks(int p, uint32_t from)
{
    vp_stream_t* t = &vp_tx[s_fd[p]];
    uint32_t at, w;
    for (at = from; at + 17 <= t->len; at += 17) {
        uint64_t a, b;
        memcpy(&a, t->b + at + 1, 8);
        memcpy(&b, t->b + at + 9, 8);
        VP_ASSERT(t->b[at] == RMC_CMD_ACK_INTERVAL, "an acknowledgement is an interval");
        for (w = 0; w < NW; ++w)
            if (a <= s_base[p] + w && s_base[p] + w <= b) {
                VP_ASSERT(s_may[p][w] && !s_acked[p][w], "what is acknowledged was received, and is acknowledged once");
                s_acked[p][w] = 1;
            }
    }
    VP_ASSERT(at == t->len, "only whole acknowledgements are sent");
}
void harness(void)
{
    uint32_t room = vp_pick(1, 60), len = RMC_MAX_PACKET - 1 - 3 - room, w, round, n = 0;
    uint8_t op, first = vp_flag();
    usec_timestamp_t next;
    s_start();
    if (first) s_arrive(1, 0, 0);
    vp_now += vp_range(0, 1000);
    for (w = 0; w < NW; w += 2) s_arrive(0, w, 0);
    vp_now += vp_range(0, 1000);
    if (!first) s_arrive(1, 0, 0);
    VP_ASSERT(rmc_sub_write_control_message_by_node_id(ctx, 5, big, len) == 0, "a message that fits is accepted");
#ifdef WRAPS
    s_limit = 3 + len - 1;
    VP_ASSERT(rmc_sub_write(ctx, 0, &op) == 0 && vp_tx[s_fd[0]].len == s_limit, "most of a message leaves");
    s_limit = 0xffffffff;
#endif
    for (round = 0; round < 2; ++round) {
        vp_now += RMC_DEFAULT_ACK_TIMEOUT;
        rmc_sub_timeout_process(ctx);
        VP_ASSERT(vp_poll_act[VP_SUB] & RMC_POLLWRITE, "watched for writing while bytes wait");
        vp_tx[s_fd[1]].len = 0;
        rmc_sub_write(ctx, 1, &op);
        acks(1, 0);
        VP_ASSERT(s_acked[1][0], "another publisher's full buffer holds nothing up");
        VP_ASSERT(rmc_sub_timeout_get_next(ctx, &next) == 0, "the next timeout can be asked for");
    }
#ifndef WRAPS
    vp_tx[s_fd[0]].len = 0;
#endif
    VP_ASSERT(rmc_sub_write(ctx, 0, &op) == 0, "the buffer drains");
    VP_ASSERT(vp_tx[s_fd[0]].len >= 3 + len, "the message leaves");
    acks(0, 3 + len);
    for (w = 0; w < NW; w += 2) n += s_acked[0][w];
    VP_ASSERT(rmc_sub_timeout_get_next(ctx, &next) == 0, "the next timeout can be asked for");
    VP_ASSERT(n == 3 || (next != -1 && next <= vp_now), "acknowledgements kept back are due");
    rmc_sub_timeout_process(ctx);
    vp_tx[s_fd[0]].len = 0;
    rmc_sub_write(ctx, 0, &op);
    acks(0, 0);
    for (w = 0; w < NW; w += 2) VP_ASSERT(s_acked[0][w], "acknowledgements that did not fit are sent later");
    VP_ASSERT(rmc_sub_timeout_get_next(ctx, &next) == 0 && next == -1, "nothing more is due");
#ifdef WRAPS
    VP_ASSERT(n == 3, "what fits is sent");
#else
    VP_REACH(n == 0, "none fitted");
    VP_REACH(n == 3, "all fitted");
#endif
    VP_WITNESS("end");
}
