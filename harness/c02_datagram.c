// C02: what leaves on the multicast socket, for any configuration, length and content.
// Payload: PAT bytes symbolic at the start and the last byte symbolic; lengths SMALL: 0..8, else the largest and its neighbours.
#define VP_NPAY 3
#define VP_PAYLEN 65535
#define VP_NDGRAM 4
#define VP_DGRAM_LEN RMC_MAX_PACKET
#include "vp_world.h"
#define LE(p, n) vp_le(p, n)
static uint64_t vp_le(const uint8_t* p, int n) { uint64_t v = 0; while (n--) v = v << 8 | p[n]; return v; }
static rmc_pub_context_t* ctx;
static uint32_t node, len[3];
static int port, ctl;

static void sent(int d, int i, uint64_t pid)
{
    uint8_t* b = vp_out[d].b;
    uint32_t k;
    VP_ASSERT(vp_out[d].addr == vp_addr[0] && vp_out[d].port == port, "a datagram goes to the configured group and port");
    VP_ASSERT(vp_out[d].len == 20 + len[i], "a datagram is the header and the payload");
    VP_ASSERT(LE(b, 8) == pid, "the header names the packet's id");
    VP_ASSERT(LE(b + 8, 4) == node, "the header names the publisher");
    VP_ASSERT(LE(b + 12, 2) == len[i], "the header names the payload length");
    VP_ASSERT(LE(b + 14, 4) == vp_addr[1], "the header names the control address");
    VP_ASSERT(LE(b + 18, 2) == (ctl ? ctl : vp_ephemeral_port), "the header names the control port");
    for (k = 0; k < 8; ++k)
        VP_ASSERT(k >= len[i] || b[20 + k] == vp_pay[i][k], "the payload follows unaltered");
    VP_ASSERT(!len[i] || b[20 + len[i] - 1] == vp_pay[i][len[i] - 1], "the payload follows to its last byte");
}
void harness(void)
{
    int i, k, res, n = 0, want[3];
    node = vp_u32(); VP_ASSUME(node);
    port = vp_range(1, 65535); ctl = vp_range(0, 65535);
    vp_ephemeral_port = vp_u16();
    for (i = 0; i < 3; ++i) vp_addr[i] = vp_u32();
    res = rmc_pub_init_context(&ctx, node, "A", port, vp_flag() ? "C" : 0, "B", ctl, user_data_u32(VP_USER_PUB),
                               vp_poll_add, vp_poll_modify, vp_poll_remove, 1, vp_payload_free);
    VP_ASSERT(res == 0, "a context is set up");
    VP_ASSERT(rmc_pub_activate_context(ctx) == 0, "activation succeeds");
    VP_ASSERT(rmc_pub_node_id(ctx) == node, "the node id is the one configured");
    if (vp_flag()) vp_pub_accept(ctx, vp_u32(), vp_u16());
    for (i = 0; i < 3; ++i) {
        for (k = 0; k < 8; ++k) vp_pay[i][k] = vp_u8();
#ifdef SMALL
        len[i] = vp_range8(0, 8);
#else
        len[i] = vp_range8(0, 5);
        len[i] = len[i] == 0 ? 1 : len[i] == 1 ? RMC_MAX_PAYLOAD - 1 : len[i] == 2 ? RMC_MAX_PAYLOAD : len[i] == 3 ? RMC_MAX_PAYLOAD + 1
                                 : len[i] == 4 ? 65535 - 20 : 65535;
        vp_pay[i][len[i] - 1] = vp_u8();
#endif
        res = vp_pub_queue(ctx, i, len[i]);
        want[i] = len[i] <= RMC_MAX_PAYLOAD;
        VP_ASSERT(want[i] ? res == 0 : res == EMSGSIZE, "a payload is accepted up to the maximum, refused beyond it");
        n += want[i];
        VP_ASSERT(rmc_pub_queue_length(ctx) == n, "a refused payload is not kept");
    }
    res = rmc_pub_write(ctx, RMC_MULTICAST_INDEX, 0);
    VP_ASSERT(res == 0 && vp_out_n == n, "each packet accepted leaves as one datagram");
    n = 0;
    for (i = 0; i < 3; ++i)
        if (want[i]) { sent(n, i, n + 1); n++; }
        else VP_ASSERT(!vp_pay_frees[i], "a refused payload stays the application's");
    VP_WITNESS("end");
    VP_REACH(n == 3, "three accepted");
#ifndef SMALL
    VP_REACH(n == 0, "all refused");
#endif
}
