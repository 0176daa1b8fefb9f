// A subscriber of NPUB publishers and a model of what it owes its application and each publisher.
// Packet w of publisher p has id s_base[p] + w. CHK names the property whose assertions are on; 22: all.
#ifndef VP_SUBMODEL_H
#define VP_SUBMODEL_H
#ifndef NPUB
#define NPUB 1
#endif
#ifndef NW
#define NW 3
#endif
#ifndef VP_NPAY
#define VP_NPAY (K + 2)
#endif
#ifndef VP_PAYLEN
#define VP_PAYLEN 8
#endif
#ifndef VP_NDGRAM
#define VP_NDGRAM 1
#endif
#ifndef VP_DGRAM_LEN
#define VP_DGRAM_LEN 32
#endif
#ifndef VP_STREAM
#define VP_STREAM (17 * (NW * NPUB + K) + 64)
#endif
#ifndef VP_MAXFD
#define VP_MAXFD 16
#endif
#define VP_NSTREAM VP_MAXFD
#ifndef VP_MAXCONN
#define VP_MAXCONN NPUB
#endif
#include <stdint.h>
static uint32_t s_limit = 0xffffffff;
#define VP_WRITE_CHUNK(n) ((n) < s_limit ? (n) : s_limit)
#include "vp_world.h"
#ifndef S_LEN
#define S_LEN(w) 2
#endif
#ifndef S_BASE
#define S_BASE vp_u64()
#endif
#define S_ASSERT(p, c, text) do { if (CHK == (p) || CHK == 22 || CHK == 29) VP_ASSERT(c, text); } while(0)

static rmc_sub_context_t* ctx;
static uint64_t s_base[NPUB];
static uint8_t s_byte[NPUB][NW];          // symbolic content of packet w, after a tag
static uint8_t s_len[NPUB][NW];
static int s_first[NPUB], s_next[NPUB];   // first packet accepted; next packet to become ready
static uint8_t s_seen[NPUB][NW];
static uint8_t s_must[NPUB][NW], s_may[NPUB][NW];   // to be acknowledged; may be
static usec_timestamp_t s_ts[NPUB][NW];
static uint8_t s_acked[NPUB][NW], s_due[NPUB][NW];  // acknowledged on the wire; timed out
static uint8_t s_up[NPUB];
static int s_fd[NPUB];
static uint8_t s_ready[NPUB * NW * 2 + 1];          // tags of packets ready for the application, per publisher in order
static int s_nready, s_cb;
static uint32_t s_pending_at;

static void s_ready_cb(rmc_sub_context_t* c) { s_cb = 1; }
static void s_connect(int p)
{
    int w;
    vp_sub_connect(ctx, p, 5 + p, 0x7f000001 + p, VP_CTRL_PORT);
    s_fd[p] = vp_poll_fd[VP_SUB + p];
    s_up[p] = 1; s_first[p] = -1; s_next[p] = 0;
    for (w = 0; w < NW; ++w) s_seen[p][w] = s_must[p][w] = s_may[p][w] = s_acked[p][w] = s_due[p][w] = 0;
}
static void s_start(void)
{
    int p, w;
    ctx = vp_sub_new(77, NPUB);
    VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "activation succeeds");
    rmc_sub_set_packet_ready_callback(ctx, s_ready_cb);
    for (p = 0; p < NPUB; ++p) {
        s_base[p] = S_BASE;
        VP_ASSUME(s_base[p] >= 1 && s_base[p] < UINT64_MAX - NW - 2);
        for (w = 0; w < NW; ++w) { s_byte[p][w] = vp_u8(); s_len[p][w] = S_LEN(w); }
        s_connect(p);
    }
}
// What the application finds is what the model says, in order for each publisher.
static void s_app(void)
{
    int i, n = s_nready;
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == n, "as many packets are available as have everything before them");
    while (n--) {
        sub_packet_t* k = rmc_sub_get_next_dispatch_ready(ctx);
        uint8_t *q, tag;
        int p, w;
        VP_ASSERT(k != 0, "a packet is available once everything before it is");
        q = rmc_sub_packet_payload(k);
        tag = q[0]; p = tag >> 4; w = tag & 15;
        for (i = 0; i < s_nready && s_ready[i] >> 4 != p; ++i) ;
        VP_ASSERT(i < s_nready && s_ready[i] == tag, "packets of a publisher are delivered in publishing order, each once, without gaps");
        VP_ASSERT(k->pid == s_base[p] + w, "a packet is delivered with its id");
        if (CHK == 1 || CHK == 22 || CHK == 29) VP_ASSERT(rmc_sub_packet_index(k) == p, "a packet is delivered with the index of its publisher's connection");
        VP_ASSERT(rmc_sub_packet_payload_len(k) == s_len[p][w], "a packet is delivered with its length");
        VP_ASSERT(s_len[p][w] < 2 || q[1] == s_byte[p][w], "a packet is delivered with its bytes");
        VP_ASSERT(rmc_sub_packet_dispatched(ctx, k) == 0, "a delivered packet can be released");
        for (; i + 1 < s_nready; ++i) s_ready[i] = s_ready[i + 1];
        s_nready--;
    }
    VP_ASSERT(rmc_sub_get_next_dispatch_ready(ctx) == 0, "nothing else is delivered");
}
static void s_check(void)
{
    int p, w;
    usec_timestamp_t next = 0, due = -1;
    S_ASSERT(1, rmc_sub_get_dispatch_ready_count(ctx) == s_nready, "as many packets are available as have everything before them");
    if (CHK == 5 || CHK == 22 || CHK == 29 || CHK == 32) {
        for (p = 0; p < NPUB; ++p)
            for (w = 0; w < NW; ++w)
                if (s_must[p][w] && !s_due[p][w] && (due == -1 || s_ts[p][w] + RMC_DEFAULT_ACK_TIMEOUT < due)) due = s_ts[p][w] + RMC_DEFAULT_ACK_TIMEOUT;
        VP_ASSERT(rmc_sub_timeout_get_next(ctx, &next) == 0, "the next timeout can be asked for");
        VP_ASSERT(due == -1 || (next != -1 && next <= due), "the next timeout is no later than the first acknowledgement due");
        if (CHK == 32) VP_ASSERT(next == due, "the next timeout is when the first acknowledgement is due");
    }
}
static void s_arrive(int p, int w, int tcp)
{
    vp_packet_t k;
    int n = s_nready;
    vp_packet(&k, s_base[p] + w, 5 + p, 0x7f000001 + p, VP_CTRL_PORT, s_len[p][w]);
    k.p[0] = p << 4 | w; k.p[1] = s_byte[p][w];
    s_cb = 0;
    if (tcp) {
        uint8_t cmd = RMC_CMD_PACKET, op;
        vp_rx[s_fd[p]].len = vp_rx[s_fd[p]].pos = 0;
        vp_stream_put(&vp_rx[s_fd[p]], &cmd, 1);
        vp_stream_put(&vp_rx[s_fd[p]], &k, sizeof(k.h) + s_len[p][w]);
        VP_ASSERT(rmc_sub_read(ctx, p, &op) == 0 && op == RMC_READ_TCP, "a resend is read");
    } else
        vp_sub_datagram(ctx, &k, sizeof(k.h) + s_len[p][w]);
    if (!s_up[p]) return;
    if (!tcp) s_may[p][w] = 1;
    if (s_first[p] < 0) s_first[p] = s_next[p] = w;
    if (w >= s_next[p] && !s_seen[p][w]) {
        s_seen[p][w] = 1;
        if (!tcp) { s_must[p][w] = 1; s_ts[p][w] = vp_now; }
        while (s_next[p] < NW && s_seen[p][s_next[p]]) s_ready[s_nready++] = p << 4 | s_next[p]++;
    }
    if (CHK == 1 || CHK == 22 || CHK == 29) VP_ASSERT(s_nready == n || s_cb, "the application is told of packets that became available");
}
// The connection sends all it has; every packet due is in it.
static void s_drain(int p)
{
    uint8_t op;
    uint32_t at = 0, w;
    vp_stream_t* t = &vp_tx[s_fd[p]];
    t->len = 0;
    rmc_sub_write(ctx, p, &op);
    if (CHK == 18 || CHK == 22 || CHK == 29)
        VP_ASSERT(vp_poll_act[VP_SUB + p] == RMC_POLLREAD, "watching for writing stops once all is sent");
    VP_ASSERT(t->len % 17 == 0, "whole acknowledgements are sent");
    for (; at + 17 <= t->len; at += 17) {
        uint64_t a, b;
        memcpy(&a, t->b + at + 1, 8);
        memcpy(&b, t->b + at + 9, 8);
        S_ASSERT(4, t->b[at] == RMC_CMD_ACK_INTERVAL, "an acknowledgement is an interval");
        S_ASSERT(4, a <= b && a >= s_base[p] && b - s_base[p] < NW, "an interval names packets of this publisher");
        for (w = 0; w < NW; ++w)
            if (a <= s_base[p] + w && s_base[p] + w <= b) {
                S_ASSERT(4, s_may[p][w], "no packet is acknowledged that did not come by multicast");
                S_ASSERT(4, !s_acked[p][w], "a packet is acknowledged in one interval");
                s_acked[p][w] = 1;
            }
    }
    for (w = 0; w < NW; ++w)
        if (s_due[p][w]) {
            S_ASSERT(5, s_acked[p][w], "a packet that has waited the acknowledgement period is acknowledged");
            S_ASSERT(4, s_acked[p][w], "no received packet is left out");
        }
    for (w = 0; w < NW; ++w)
        if (s_acked[p][w]) s_must[p][w] = 0;
}
static void s_timeout(uint32_t dt)
{
    int p, w;
    vp_now += dt;
    VP_ASSERT(rmc_sub_timeout_process(ctx) == 0, "timeout processing succeeds");
    for (p = 0; p < NPUB; ++p)
        for (w = 0; w < NW; ++w)
            if (s_must[p][w] && s_ts[p][w] + RMC_DEFAULT_ACK_TIMEOUT <= vp_now) s_due[p][w] = 1;
    if (CHK == 5 || CHK == 22 || CHK == 29 || CHK == 32)   // what was acknowledged early is known from the wire only
        for (p = 0; p < NPUB; ++p)
            if (s_up[p]) s_drain(p);
}
// Whether bytes wait is known from the stream only; asked of the poll set before draining.
static int s_expect_pending(int p)
{
    int w;
    for (w = 0; w < NW; ++w)
        if (s_due[p][w] && !s_acked[p][w]) return 1;
    return 0;
}
static void s_disconnect(int p, int eof)
{
    uint8_t op;
    int w;
    if (eof) {
        vp_rx[s_fd[p]].len = vp_rx[s_fd[p]].pos = 0;
        VP_ASSERT(rmc_sub_read(ctx, p, &op) == 0 && op == RMC_READ_DISCONNECT, "the end of the stream is a disconnect");
    } else
        VP_ASSERT(rmc_sub_close_connection(ctx, p) == 0, "a connection can be closed");
    s_up[p] = 0;
    for (w = 0; w < NW; ++w) s_seen[p][w] = s_must[p][w] = s_due[p][w] = 0;
}
// The subscriber is stopped, or started again. What the application has not taken is released.
static uint8_t s_active = 1;
static void s_switch(void)
{
    int p, w;
    if (!s_active) {
        VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "a stopped subscriber can be started again");
        VP_ASSERT(vp_poll_on[VP_SUB + VP_SLOT_MCAST] && (vp_poll_act[VP_SUB + VP_SLOT_MCAST] & RMC_POLLREAD), "the multicast socket is watched for reading");
        s_active = 1;
        return;
    }
    VP_ASSERT(rmc_sub_deactivate_context(ctx) == 0, "a subscriber can be stopped");
    s_active = 0;
    s_nready = 0;
    for (p = 0; p < NPUB; ++p) {
        s_up[p] = 0;
        for (w = 0; w < NW; ++w) s_seen[p][w] = s_must[p][w] = s_due[p][w] = 0;
    }
    for (w = 0; w < VP_NPAY; ++w) VP_ASSERT(!vp_pay_out[w], "what the application has not taken is released when the subscriber stops");
}
#endif
