// C31: two contexts of a kind in one process, K calls or events spread over them in any way. SIDE 1: publishers, 0: subscribers.
#define NC 2
#ifndef NP
#define NP 2
#endif
#define VP_NPAY (NC * NP)
#define VP_PAYLEN 8
#define VP_DGRAM_LEN 32
#define VP_NDGRAM (NC * (NP + K))
#define VP_STREAM 128
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#define VP_MAXCONN 2
#include <stdint.h>
#include "vp_world.h"
#define USER(c) (0x7000 + (c))
static int fd[NC], cur;
static uint8_t on[NC][4], frees[NC][NP], up[NC];
static rmc_poll_action_t act[NC][4];
static int slot(user_data_t u, rmc_index_t i)
{
    VP_ASSERT(u.u32 == USER(cur), "a call on one context calls back for no other");
    return i == RMC_LISTEN_INDEX ? 2 : i == RMC_MULTICAST_INDEX ? 3 : i;
}
static void add(user_data_t u, int f, rmc_index_t i, rmc_poll_action_t a)
{
    int k = slot(u, i);
    on[cur][k] = 1; act[cur][k] = a;
    if (k < 2) fd[cur] = f;
}
static void mod(user_data_t u, int f, rmc_index_t i, rmc_poll_action_t o, rmc_poll_action_t a) { act[cur][slot(u, i)] = a; }
static void del(user_data_t u, int f, rmc_index_t i) { on[cur][slot(u, i)] = 0; }
static void pay_free(void* p, payload_len_t n, user_data_t u)
{
    int i = vp_pay_slot(p);
    VP_ASSERT(u.u32 == USER(cur) && i >= 0 && (!SIDE || i / NP == cur), "a payload goes back to the context it came from");
    frees[cur][i % NP]++;
    vp_pay_out[i] = 0;
}
#if SIDE
static rmc_pub_context_t* ctx[NC];
static uint32_t q[NC], sent[NC];
static uint8_t owed[NC][NP], done[NC][NP], buf[NC], susp[NC], thr[NC];
static usec_timestamp_t ts[NC][NP];
static void setup(int c)
{
    uint8_t op;
    cur = c;
    VP_ASSERT(rmc_pub_init_context(&ctx[c], 5 + c, "A", VP_GROUP_PORT + c, "0", "B", VP_CTRL_PORT + c, user_data_u32(USER(c)), add, mod, del, 2, pay_free) == 0,
              "a context is set up beside another");
    VP_ASSERT(rmc_pub_activate_context(ctx[c]) == 0, "a context is activated beside another");
    vp_peer_addr = 0x7f000001; vp_peer_port = 2000 + c;
    VP_ASSERT(rmc_pub_read(ctx[c], RMC_LISTEN_INDEX, &op) == 0, "a subscriber connects");
    up[c] = 1;
    if (THR) { thr[c] = 1 + c; VP_ASSERT(rmc_pub_throttling(ctx[c], thr[c], 0) == 0, "thresholds are accepted"); }
}
static int unacked(int c) { int i, n = 0; for (i = 0; i < NP; ++i) n += owed[c][i]; return n; }
static void settle(int c)
{
    int i;
    for (i = 0; i < NP; ++i) if (i < (int) sent[c] && !owed[c][i]) done[c][i] = 1;
    if (susp[c] && !unacked(c)) susp[c] = 0;
}
static void step(int c, int op)
{
    uint32_t i = q[c], n = vp_out_n;
    uint8_t o = 0xff;
    cur = c;
    switch (op) {
    case 0:
        VP_ASSUME(i < NP);
        vp_pay[c * NP + i][0] = vp_u8(); vp_pay[c * NP + i][1] = c << 4 | i;
        if (rmc_pub_queue_packet(ctx[c], vp_pay[c * NP + i], 2, 0)) { VP_ASSERT(susp[c], "only a suspended context refuses a packet"); return; }
        VP_ASSERT(!susp[c], "a suspended context refuses a packet");
        q[c]++;
        if (thr[c] && unacked(c) >= thr[c]) susp[c] = 1;
        break;
    case 1:
        VP_ASSUME(q[c] > sent[c]);
        VP_ASSERT(rmc_pub_write(ctx[c], RMC_MULTICAST_INDEX, &o) == 0, "queued packets are sent");
        VP_ASSERT(vp_out_n - n == q[c] - sent[c], "a context sends its own packets, all of them");
        for (; n < vp_out_n; ++n) {
            packet_header_t* h = (packet_header_t*) vp_out[n].b;
            i = sent[c]++;
            VP_ASSERT(h->pid == i + 1 && h->node_id == 5 + c, "each context numbers its own packets");
            VP_ASSERT(vp_out[n].port == VP_GROUP_PORT + c && h->listen_port == VP_CTRL_PORT + c, "each context sends to its own group and names its own port");
            VP_ASSERT(!memcmp(h + 1, vp_pay[c * NP + i], 2), "each context sends its own payloads");
            owed[c][i] = up[c]; ts[c][i] = vp_now;
        }
        settle(c);
        break;
    case 2: {
        cmd_ack_interval_t a;
        uint8_t cmd = RMC_CMD_ACK_INTERVAL;
        VP_ASSUME(up[c] && sent[c]);
        a.first_pid = vp_pick(1, NP); a.last_pid = NP;
        vp_rx[fd[c]].len = vp_rx[fd[c]].pos = 0;
        vp_stream_put(&vp_rx[fd[c]], &cmd, 1);
        vp_stream_put(&vp_rx[fd[c]], &a, sizeof(a));
        VP_ASSERT(rmc_pub_read(ctx[c], 0, &o) == 0, "an acknowledgement is read");
        for (i = a.first_pid - 1; i < NP; ++i) owed[c][i] = 0;
        settle(c);
        break; }
    case 3:
        vp_now += vp_pick(0, 1) * (RMC_DEFAULT_PACKET_TIMEOUT / 2);
        rmc_pub_timeout_process(ctx[c]);
        for (i = 0; i < NP; ++i)
            if (owed[c][i] && ts[c][i] + RMC_DEFAULT_PACKET_TIMEOUT <= vp_now) { owed[c][i] = 0; buf[c]++; VP_WITNESS("resent"); }
        settle(c);
        break;
    case 4:
        VP_ASSUME(up[c]);
        VP_ASSERT(rmc_pub_close_connection(ctx[c], 0) == 0, "a connection is closed");
        up[c] = buf[c] = 0;
        for (i = 0; i < NP; ++i) owed[c][i] = 0;
        settle(c);
        break;
    case 5:
        VP_ASSUME(up[c] && buf[c]);
        vp_tx[fd[c]].len = 0;
        VP_ASSERT(rmc_pub_write(ctx[c], 0, &o) == 0, "resends are sent");
        VP_ASSERT(vp_tx[fd[c]].len == buf[c] * (1 + sizeof(packet_header_t) + 2), "a context resends its own packets");
        VP_ASSERT(((packet_header_t*) (vp_tx[fd[c]].b + 1))->node_id == 5 + c && vp_tx[fd[c]].b[2 + sizeof(packet_header_t)] >> 4 == c, "a context resends its own payloads");
        buf[c] = 0;
        break;
    }
}
static void check(int c)
{
    uint32_t a = 9, b = 9, n = 9, i;
    usec_timestamp_t next = 0, due = -1;
    rmc_pub_context_get_pending(ctx[c], &a, &b, &n);
    VP_ASSERT(a == q[c] - sent[c] && n == (uint32_t) unacked(c), "each context counts its own packets");
    VP_ASSERT(b == buf[c] * (1 + sizeof(packet_header_t) + 2), "each context counts its own bytes");
    VP_ASSERT(rmc_pub_get_subscriber_count(ctx[c]) == up[c] && on[c][0] == up[c], "each context has its own connections");
    VP_ASSERT(!rmc_pub_traffic_suspended(ctx[c]) == !susp[c], "each context is suspended by its own traffic");
    VP_ASSERT(!(act[c][3] & RMC_POLLWRITE) == (q[c] == sent[c]), "each context is watched for its own packets");
    VP_ASSERT(!up[c] || !(act[c][0] & RMC_POLLWRITE) == !buf[c], "each context is watched for its own resends");
    for (i = 0; i < NP; ++i) {
        VP_ASSERT(frees[c][i] == done[c][i], "a payload is released when its own context no longer needs it");
        if (owed[c][i] && (due == -1 || ts[c][i] + RMC_DEFAULT_PACKET_TIMEOUT < due)) due = ts[c][i] + RMC_DEFAULT_PACKET_TIMEOUT;
    }
    VP_ASSERT(rmc_pub_timeout_get_next(ctx[c], &next) == 0 && (due == -1) == (next == -1), "each context has its own timeout");
    VP_ASSERT(due == -1 || next <= due, "each context names its own timeout");
}
#define NOPS 6
static void finish(int c)
{
    uint32_t i;
    cur = c;
    VP_ASSERT(rmc_pub_delete_context(ctx[c]) == 0, "a context is deleted beside another");
    for (i = 0; i < NP; ++i) VP_ASSERT(frees[c][i] == (i < q[c]), "each context hands back its own payloads");
}
#else
static rmc_sub_context_t* ctx[NC];
static int first[NC], next[NC], ready[NC], taken[NC];
static uint8_t seen[NC][NP], owe[NC][NP], told[NC];
static usec_timestamp_t ts[NC][NP];
static uint8_t body[NC];
static void ready_cb(rmc_sub_context_t* c)
{
    VP_ASSERT(c == ctx[cur], "the packet callback names the context");
    told[cur] = 1;
}
static void* pay_alloc(payload_len_t n, user_data_t u)
{
    int i;
    VP_ASSERT(u.u32 == USER(cur), "payload memory is asked for by the context it is for");
    for (i = 0; i < NC * NP; ++i) if (!vp_pay_out[i]) { vp_pay_out[i] = 1; return vp_pay[i]; }
    VP_ASSERT(0, "no more payload memory is asked for than there are packets");
    return 0;
}
static void setup(int c)
{
    vp_packet_t k;
    uint8_t op;
    cur = c;
    VP_ASSERT(rmc_sub_init_context(&ctx[c], 77 + c, "A", VP_GROUP_PORT + c, "0", user_data_u32(USER(c)), add, mod, del, 2, pay_alloc, pay_free) == 0,
              "a context is set up beside another");
    VP_ASSERT(rmc_sub_activate_context(ctx[c]) == 0, "a context is activated beside another");
    rmc_sub_set_packet_ready_callback(ctx[c], ready_cb);
    vp_packet(&k, 0, 5, 0x7f000001, VP_CTRL_PORT, 0);               // the same publisher for both
    vp_sub_datagram(ctx[c], &k, sizeof(k.h));
    VP_ASSERT(rmc_sub_write(ctx[c], 0, &op) == 0 && op == RMC_COMPLETE_CONNECTION, "each context connects to the publisher");
    vp_tx[fd[c]].len = 0;
    up[c] = 1; first[c] = -1;
    body[c] = vp_u8();
}
static void step(int c, int op)
{
    vp_packet_t k;
    uint8_t o, w, *p;
    sub_packet_t* s;
    uint32_t at;
    int was = ready[c];
    cur = c;
    switch (op) {
    case 0:
        w = vp_pick(0, NP - 1);
        vp_packet(&k, 100 + w, 5, 0x7f000001, VP_CTRL_PORT, 2);
        k.p[0] = c << 4 | w; k.p[1] = body[c];
        told[c] = 0;
        vp_sub_datagram(ctx[c], &k, sizeof(k.h) + 2);
        if (!up[c]) break;
        if (first[c] < 0) first[c] = next[c] = w;
        if (w >= next[c] && !seen[c][w]) {
            seen[c][w] = owe[c][w] = 1; ts[c][w] = vp_now;
            while (next[c] < NP && seen[c][next[c]]) { next[c]++; ready[c]++; }
        }
        VP_ASSERT(ready[c] == was || told[c], "the context is told of its own packets");
        break;
    case 1:
        VP_ASSUME(ready[c]);
        s = rmc_sub_get_next_dispatch_ready(ctx[c]);
        VP_ASSERT(s != 0, "a packet that is ready can be taken");
        p = rmc_sub_packet_payload(s);
        w = first[c] + taken[c];
        VP_ASSERT(p[0] == (c << 4 | w) && p[1] == body[c], "each context delivers its own packets, in order");
        VP_ASSERT(rmc_sub_packet_dispatched(ctx[c], s) == 0, "a packet can be given back");
        ready[c]--; taken[c]++;
        break;
    case 2:
        vp_now += vp_pick(0, 1) * RMC_DEFAULT_ACK_TIMEOUT;
        VP_ASSERT(rmc_sub_timeout_process(ctx[c]) == 0, "timeouts are processed");
        if (!up[c]) break;
        vp_tx[fd[c]].len = 0;
        rmc_sub_write(ctx[c], 0, &o);
        for (at = 0; at + 17 <= vp_tx[fd[c]].len; at += 17) {
            uint64_t a, b;
            memcpy(&a, vp_tx[fd[c]].b + at + 1, 8);
            memcpy(&b, vp_tx[fd[c]].b + at + 9, 8);
            VP_WITNESS("acknowledged");
            for (w = 0; w < NP; ++w) if (a <= 100u + w && 100u + w <= b) {
                VP_ASSERT(seen[c][w], "each context acknowledges what it has itself received");
                owe[c][w] = 0;
            }
        }
        for (w = 0; w < NP; ++w) VP_ASSERT(!owe[c][w] || ts[c][w] + RMC_DEFAULT_ACK_TIMEOUT > vp_now, "each context acknowledges what it has received in time");
        break;
    case 3:
        VP_ASSUME(up[c] && !ready[c]);
        VP_ASSERT(rmc_sub_close_connection(ctx[c], 0) == 0, "a connection is closed");
        up[c] = 0;
        for (w = 0; w < NP; ++w) owe[c][w] = 0;
        break;
    }
}
static void check(int c)
{
    usec_timestamp_t next = 0, due = -1;
    int w;
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx[c]) == ready[c], "each context has its own packets ready");
    VP_ASSERT(rmc_sub_get_publisher_count(ctx[c]) == up[c] && on[c][0] == up[c], "each context has its own connections");
    for (w = 0; w < NP; ++w)
        if (owe[c][w] && (due == -1 || ts[c][w] + RMC_DEFAULT_ACK_TIMEOUT < due)) due = ts[c][w] + RMC_DEFAULT_ACK_TIMEOUT;
    VP_ASSERT(rmc_sub_timeout_get_next(ctx[c], &next) == 0 && (due == -1 || next <= due), "each context names its own timeout");
    VP_ASSERT(due != -1 || next == -1, "a context that owes no acknowledgement names no timeout");
}
#define NOPS 4
static void finish(int c)
{
    cur = c;
    VP_ASSERT(rmc_sub_delete_context(ctx[c]) == 0, "a context is deleted beside another");
}
#endif
void harness(void)
{
    int i, c, two = 0;
#ifdef DELETE
    int x = vp_pick(0, 1);
#endif
    vp_log_on();
    vp_now = 1000;
    setup(0);
    setup(1);
    for (i = 0; i < K; ++i) {
        c = vp_pick(0, 1);
        two |= 1 << c;
        step(c, vp_pick(0, NOPS - 1));
        check(0);
        check(1);
    }
    VP_REACH(two == 3, "both contexts at work");
#ifdef DELETE
    finish(x);
    check(1 - x);
    finish(1 - x);
    for (i = 0; i < NC * NP; ++i) VP_ASSERT(SIDE || !vp_pay_out[i], "no payload is left behind");
    VP_WITNESS("both deleted");
#endif
}
