// C01: K arrivals of packets in any order, each by multicast or TCP, duplicates included, ids around a symbolic base.
#define VP_NPAY (K + 1)
#define VP_PAYLEN 4
#define VP_NDGRAM 1
#define VP_STREAM 32
#include "vp_world.h"

static uint8_t content[K + 1][2];  // what packet base+i was published with
static uint8_t length[K + 1];
static uint8_t seen[K + 1];
static int first = -1, next;
static uint64_t base;
static rmc_sub_context_t* ctx;

static void drain(void)
{
    int i;
    for (i = 0; i <= K; ++i)   // everything the model says is ready
        if (first >= 0 && next <= K && seen[next]) {
            sub_packet_t* p = rmc_sub_get_next_dispatch_ready(ctx);
            uint8_t* q;
            VP_ASSERT(p != 0, "a packet is available once everything before it is");
            VP_ASSERT(p->pid == base + next, "packets are delivered in publishing order, each once, without gaps");
            VP_ASSERT(rmc_sub_packet_payload_len(p) == length[next], "delivered with the published length");
            q = rmc_sub_packet_payload(p);
            VP_ASSERT(length[next] < 1 || q[0] == content[next][0], "delivered with the published bytes (0)");
            VP_ASSERT(length[next] < 2 || q[1] == content[next][1], "delivered with the published bytes (1)");
            VP_ASSERT(rmc_sub_packet_dispatched(ctx, p) == 0, "a delivered packet can be released");
            next++;
        }
    VP_ASSERT(rmc_sub_get_next_dispatch_ready(ctx) == 0, "nothing else is delivered");
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == 0, "nothing else is counted as ready");
}

void harness(void)
{
    vp_packet_t k;
    int i;
    uint8_t mask = MASK;
    ctx = vp_sub_new(7, 1);
    VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "activation succeeds");
    vp_sub_connect(ctx, 0, 5, 0x7f000001, VP_CTRL_PORT);
    base = vp_u64();
    VP_ASSUME(base >= 1 && base < UINT64_MAX - K - 1);
    for (i = 0; i < K; ++i) {
        content[i][0] = vp_u8(); content[i][1] = vp_u8();
        length[i] = mask ? 2 : vp_range8(0, 2);
    }
    for (i = 0; i < K; ++i) {
        uint8_t w = vp_range8(0, K - 1);
        uint8_t tcp = (mask >> i) & 1;     // which arrivals come by TCP
        vp_packet(&k, base + w, 5, 0x7f000001, VP_CTRL_PORT, mask ? 2 : length[w]);
        k.p[0] = content[w][0]; k.p[1] = content[w][1];
        if (tcp) {
            uint8_t cmd = RMC_CMD_PACKET, op;
            int fd = vp_poll_fd[VP_SUB];
            vp_rx[fd].len = vp_rx[fd].pos = 0;
            vp_stream_put(&vp_rx[fd], &cmd, 1);
            vp_stream_put(&vp_rx[fd], &k, sizeof(k.h) + (mask ? 2 : length[w]));
            VP_ASSERT(rmc_sub_read(ctx, 0, &op) == 0 && op == RMC_READ_TCP, "a resend is read");
        } else
            vp_sub_datagram(ctx, &k, sizeof(k.h) + (mask ? 2 : length[w]));
        if (first < 0) { first = w; next = w; }
        if (w >= next) seen[w] = 1;
        drain();
        VP_REACH(next == K && first == 0 && i == K - 1, "all delivered");
    }
    VP_WITNESS("end");
}
