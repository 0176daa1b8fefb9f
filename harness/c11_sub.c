// C11, subscriber side: any bytes on a control channel, in any pieces, have the effect of the complete valid resends they
// begin with, and no other. RAW=n: n free bytes, only their effect elsewhere is looked at. Otherwise M commands.
#define VP_NPAY (M + 3)
#define VP_PAYLEN 8
#define VP_NDGRAM 1
#define VP_DGRAM_LEN 32
#ifdef RAW
#define M 1
#define TOTAL RAW
#else
#define TOTAL (23 * M + 22 * WRAP)
#endif
#ifndef WRAP
#define WRAP 0   // 1: a long resend and part of a short one first, so that the stream lies across the end of the ring
#endif
#ifndef SHIFT
#define SHIFT 0
#endif
#define VP_STREAM ((WRAP ? RMC_MAX_PACKET : 0) + TOTAL + 8)
#define VP_MAXCONN 2
#include "reliable_multicast.h"
static void* big_alloc(payload_len_t len, user_data_t u);
static void big_free(void* p, payload_len_t len, user_data_t u);
#define VP_SUB_ALLOC big_alloc
#define VP_SUB_FREE big_free
#include "vp_world.h"
#ifndef CUTS
#define CUTS 1
#endif
static rmc_sub_context_t* ctx;
static uint8_t s[TOTAL];
static uint32_t n, fd, up = 1;
static uint8_t* big;
static void put(uint32_t from, uint32_t to)
{
    uint8_t op;
    int res;
    if (from == to || !up) return;
    vp_rx[fd].len = vp_rx[fd].pos = 0;
    vp_stream_put(&vp_rx[fd], s + from, to - from);
    res = rmc_sub_read(ctx, 0, &op);
    VP_ASSERT(vp_rx[fd].pos == to - from, "what arrives is taken from the socket");
    if (res && res != EAGAIN) { VP_ASSERT(res == EPROTO, "an invalid command is a protocol error"); up = 0; }
}
static void* big_alloc(payload_len_t len, user_data_t u) { return len > VP_PAYLEN ? (void*) big : vp_payload_alloc(len, u); }
static void big_free(void* p, payload_len_t len, user_data_t u) { if (p != big) vp_payload_free(p, len, u); }
static struct { uint64_t pid; uint32_t len, at; } want[M + 2];
static uint32_t nwant;
void harness(void)
{
    uint32_t i, j, at, cut, prev, stop = 0, base = 0, next = 0, n0 = 0;
    uint8_t op, seen[6] = { 0 }, have[6];
    vp_packet_t k;
    sub_packet_t* p;
    ctx = vp_sub_new(5, 2);
    VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "activation succeeds");
    vp_sub_connect(ctx, 0, 5, 0x7f000001, 2001);
    vp_sub_connect(ctx, 1, 6, 0x7f000002, 2002);
    fd = vp_poll_fd[VP_SUB];
    if (WRAP) {
        uint32_t pre = RMC_MAX_PACKET - 22 - vp_pick(0, SHIFT);
        static uint8_t b[RMC_MAX_PACKET];
        uint8_t c = RMC_CMD_PACKET;
        big = b;
        vp_packet(&k, 1, 5, 0, 0, pre - 21);
        vp_rx[fd].len = vp_rx[fd].pos = 0;
        vp_stream_put(&vp_rx[fd], &c, 1);
        vp_stream_put(&vp_rx[fd], &k, 20);
        vp_rx[fd].len = pre;
        // part of a short resend follows, so that the ring does not start over at its beginning
        s[n++] = RMC_CMD_PACKET;
        vp_packet(&k, 2, 5, 0x7f000002, 2002, 1);
        for (j = 0; j < 20; ++j) s[n++] = ((uint8_t*) &k)[j];
        s[n++] = 'x';
        n0 = 21;
        vp_stream_put(&vp_rx[fd], s, n0);
        rmc_sub_read(ctx, 0, &op);
        VP_ASSERT(vp_rx[fd].pos == pre + n0 && circ_buf_in_use(&ctx->conn_vec.connections[0].read_buf) == n0, "a long resend is read, and part of a short one");
        p = rmc_sub_get_next_dispatch_ready(ctx);
        VP_ASSERT(p && p->pid == 1 && rmc_sub_packet_payload_len(p) == pre - 21, "a long resend is delivered");
        VP_ASSERT(rmc_sub_packet_dispatched(ctx, p) == 0, "a delivered packet can be released");
        base = 2; next = 2;
    }
#ifdef RAW
    for (n = 0; n < RAW; ++n) s[n] = vp_u8();
#else
    for (i = 0; i < M; ++i) {
        uint8_t len;
        if (vp_flag()) {
            len = vp_range8(0, 2);
            s[n++] = RMC_CMD_PACKET;
            at = vp_range8(1, 3); cut = vp_flag() ? 5 : 9;
            vp_packet(&k, at + base, cut, 0x7f000002, 2002, len);
            for (j = 0; j < 20; ++j) s[n++] = ((uint8_t*) &k)[j];
            for (j = 0; j < len; ++j) s[n++] = vp_u8();
        } else {
            s[n] = vp_u8(); VP_ASSUME(s[n] != RMC_CMD_PACKET); n++;
        }
    }
    n = vp_pick(n0 + WRAP, n);
#endif
    for (i = 0, prev = n0; i < CUTS; ++i, prev = cut) {
        cut = vp_pick(prev, n);
        put(prev, cut);
    }
    put(prev, n);
    // the reference: resends from the start, as far as they are complete
    for (at = 0; at < n && !stop;) {
        uint64_t pid;
        uint32_t len;
        if (s[at] != RMC_CMD_PACKET) { stop = 1; break; }
        if (n - at < 21) break;
        len = s[at + 13] | s[at + 14] << 8;
        if (n - at < 21 + len) break;
        memcpy(&pid, s + at + 1, 8);
        if (!next) next = pid;
#ifndef RAW
        if (pid >= next && !seen[pid]) {
            seen[pid] = 1; have[pid] = at;
            for (; seen[next]; ++next) {
                want[nwant].pid = next; want[nwant].len = s[have[next] + 13]; want[nwant++].at = have[next] + 21;
            }
        }
#else
        want[0].pid = pid; want[0].len = len; want[0].at = at + 21; nwant = 1;
#endif
        at += 21 + len;
    }
    VP_ASSERT(up == !stop, "the connection ends at an invalid command, and only then");
    VP_ASSERT(rmc_sub_get_publisher_count(ctx) == 1 + up, "only this connection ends");
    VP_ASSERT(vp_fd_is_open(fd) == up && vp_poll_on[VP_SUB] == up, "the descriptor is closed when the connection ends");
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == nwant, "exactly the complete resends are available");
    for (i = 0; i < M + WRAP; ++i) if (i < nwant) {
        p = rmc_sub_get_next_dispatch_ready(ctx);
        VP_ASSERT(p && p->pid == want[i].pid, "each complete resend is delivered once, in order");
        VP_ASSERT(rmc_sub_packet_payload_len(p) == want[i].len, "with its length");
        for (j = 0; j < 2; ++j)
            if (j < want[i].len) VP_ASSERT(((uint8_t*) rmc_sub_packet_payload(p))[j] == s[want[i].at + j], "with its bytes");
        VP_ASSERT(rmc_sub_packet_dispatched(ctx, p) == 0, "a delivered packet can be released");
    }
    // the other publisher
    vp_packet(&k, 1, 6, 0x7f000002, 2002, 1);
    k.p[0] = 77;
    vp_sub_datagram(ctx, &k, 21);
    p = rmc_sub_get_next_dispatch_ready(ctx);
    VP_ASSERT(p && p->pid == 1 && rmc_sub_packet_index(p) == 1 && *(uint8_t*) rmc_sub_packet_payload(p) == 77, "the other connection goes on");
    VP_ASSERT(rmc_sub_packet_dispatched(ctx, p) == 0, "a delivered packet can be released");
    VP_ASSERT(rmc_sub_delete_context(ctx) == 0, "the context is deleted");
    for (i = 0; i < M + 3; ++i) VP_ASSERT(!vp_pay_out[i], "no payload is left over");
    VP_ASSERT(vp_heap_live == 0 && vp_fd_count == 0, "nothing is left over");
    VP_REACH(stop, "an invalid command");
    VP_REACH(nwant == M + WRAP || TOTAL < 21, "everything is delivered");
    VP_WITNESS("end");
}
