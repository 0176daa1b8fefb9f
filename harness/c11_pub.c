// C11, publisher side: any bytes on a control channel, in any pieces, have the effect of the complete valid commands they
// begin with, and no other. RAW=n: n free bytes. Otherwise M commands, valid or not, cut off anywhere.
#define NP 3
#define VP_NPAY NP
#define VP_PAYLEN 4
#define VP_NDGRAM (NP + 1)
#ifdef RAW
#define TOTAL (RAW + 4 * WRAP)
#else
#define TOTAL (17 * M + 4 * WRAP)
#endif
#ifndef WRAP
#define WRAP 0   // 1: a long message and part of a short one first, so that the stream lies across the end of the ring
#endif
#ifndef SHIFT
#define SHIFT 0
#endif
#define VP_STREAM ((WRAP ? RMC_MAX_PACKET : 0) + TOTAL + 8)
#define VP_MAXCONN 2
#include "vp_world.h"
#ifndef CUTS
#define CUTS 1
#endif
static rmc_pub_context_t* ctx;
static uint8_t s[TOTAL];
static uint32_t n, fd;
static struct { uint32_t len; uint8_t b[TOTAL]; } log_[TOTAL / 3 + 1];
static uint32_t nlog, logging;
static void control(rmc_pub_context_t* c, uint32_t addr, uint16_t port, rmc_node_id_t node, void* p, payload_len_t len)
{
    uint32_t i;
    if (!logging) { logging = 2; return; }
    VP_ASSERT(addr == 0x7f000001 && port == 2001, "the sender of a message is named");
    VP_ASSERT(nlog < TOTAL / 3, "no more messages than were sent");
    VP_ASSERT(len <= n, "no message longer than what was sent");
    log_[nlog].len = len;
    for (i = 0; i < TOTAL; ++i) if (i < len) log_[nlog].b[i] = ((uint8_t*) p)[i];
    nlog++;
}
static void put(uint32_t from, uint32_t to)
{
    uint8_t op;
    if (from == to) return;
    vp_rx[fd].len = vp_rx[fd].pos = 0;
    vp_stream_put(&vp_rx[fd], s + from, to - from);
    rmc_pub_read(ctx, 0, &op);
    VP_ASSERT(vp_rx[fd].pos == to - from, "what arrives is taken from the socket");
}
void harness(void)
{
    uint32_t i, at, cut, prev, k = 0, rq, rb, ra, stop = 0, end, n0 = 0;
    uint8_t owed[NP], op;
    ctx = vp_pub_new(5, 2);
    VP_ASSERT(rmc_pub_activate_context(ctx) == 0, "activation succeeds");
    rmc_pub_set_control_message_callback(ctx, control);
    vp_pub_accept(ctx, 0x7f000001, 2001);
    vp_pub_accept(ctx, 0x7f000002, 2002);
    fd = vp_poll_fd[0];
    for (i = 0; i < NP; ++i) { owed[i] = 1; VP_ASSERT(vp_pub_queue(ctx, i, 1) == 0, "a packet is queued"); }
    VP_ASSERT(rmc_pub_write(ctx, RMC_MULTICAST_INDEX, 0) == 0, "packets are sent");
    if (WRAP) {
        uint32_t pre = RMC_MAX_PACKET - 4 - vp_pick(0, SHIFT);
        cmd_control_message_t m;
        uint8_t c = RMC_CMD_CONTROL_MESSAGE;
        m.payload_len = pre - 3;
        vp_rx[fd].len = vp_rx[fd].pos = 0;
        vp_stream_put(&vp_rx[fd], &c, 1);
        vp_stream_put(&vp_rx[fd], &m, 2);
        vp_rx[fd].len = pre;
        // part of a short message follows, so that the ring does not start over at its beginning
        s[n++] = RMC_CMD_CONTROL_MESSAGE; s[n++] = 1; s[n++] = 0; s[n++] = 'x';
        vp_stream_put(&vp_rx[fd], s, 3);
        rmc_pub_read(ctx, 0, &op);
        VP_ASSERT(logging == 2 && vp_rx[fd].pos == pre + 3, "a long message is read");
        VP_ASSERT(circ_buf_in_use(&ctx->conn_vec.connections[0].read_buf) == 3, "part of a message waits");
        n0 = 3;
    }
    logging = 1;
#ifdef RAW
    for (i = 0; i < RAW; ++i) s[n++] = vp_u8();
#else
    for (i = 0; i < M; ++i) {
        uint8_t kind = vp_range8(0, 2), len, j;
        switch (kind) {
        case 0: s[n++] = RMC_CMD_ACK_INTERVAL;
            for (j = 0; j < 16; ++j) s[n++] = j == 0 || j == 8 ? vp_range8(0, 4) : 0;
            break;
        case 1: len = vp_range8(1, 3);
            s[n++] = RMC_CMD_CONTROL_MESSAGE; s[n++] = len; s[n++] = 0;
            for (j = 0; j < len; ++j) s[n++] = vp_u8();
            break;
        case 2: s[n] = vp_u8(); VP_ASSUME(s[n] != RMC_CMD_ACK_INTERVAL && s[n] != RMC_CMD_CONTROL_MESSAGE); n++; break;
        }
    }
    n = vp_pick(WRAP ? 4 : 0, n);
#endif
    for (i = 0, prev = n0; i < CUTS; ++i, prev = cut) {
        cut = vp_pick(prev, n);
        put(prev, cut);
    }
    put(prev, n);
    // the reference: commands from the start, as far as they are complete and valid
    for (at = 0; at < n && !stop;) {
        uint32_t left = n - at;
        if (s[at] == RMC_CMD_ACK_INTERVAL) {
            uint64_t a, b;
            if (left < 17) break;
            memcpy(&a, s + at + 1, 8); memcpy(&b, s + at + 9, 8);
            for (i = 0; i < NP; ++i) if (a <= i + 1 && i + 1 <= b) owed[i] = 0;
            at += 17;
        } else if (s[at] == RMC_CMD_CONTROL_MESSAGE) {
            uint32_t len;
            if (left < 3) break;
            len = s[at + 1] | s[at + 2] << 8;
            if (left < 3 + len) break;
            VP_ASSERT(k < nlog && log_[k].len == len, "every complete message is delivered with its length");
            for (i = 0; i < TOTAL; ++i)
                if (i < len) VP_ASSERT(log_[k].b[i] == s[at + 3 + i], "every complete message is delivered with its bytes");
            k++;
            at += 3 + len;
        } else
            stop = 1;
    }
    end = owed[0] + owed[1] + owed[2];
    VP_ASSERT(k == nlog, "no other message is delivered");
    rmc_pub_context_get_pending(ctx, &rq, &rb, &ra);
    VP_ASSERT(ra == end + NP && rq == 0 && rb == 0, "exactly the acknowledgements read count");
    VP_ASSERT(rmc_pub_get_subscriber_count(ctx) == 2, "no connection is opened or closed");
    // the other connection still works, and tells which packets are accounted for by this one
    VP_ASSERT(rmc_pub_close_connection(ctx, 1) == 0, "the other connection is still there");
    for (i = 0; i < NP; ++i) VP_ASSERT(vp_pay_frees[i] == !owed[i], "exactly the packets acknowledged are done with");
    VP_REACH(stop, "an invalid command");
    VP_REACH(k > WRAP, "a message");
    VP_REACH(end < NP || TOTAL < 17, "an acknowledgement");
    VP_WITNESS("end");
}
