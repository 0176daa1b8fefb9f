// C20: a real publisher and a real subscriber joined by a network that loses, repeats and reorders datagrams.
// N packets are sent; then any K events; then the timeouts run and the control channel drains. Every packet must have arrived.
#ifndef K
#define K 4
#endif
#ifndef N
#define N 3
#endif
#ifndef BASE
#define BASE 1       // packets known to have arrived first
#endif
#ifndef LEN
#define LEN(i) 2
#endif
#ifndef MAXLEN
#define MAXLEN 2
#endif
#ifndef PART
#define PART 9       // a partial move carries this many bytes
#endif
#ifndef DT_ACK         // time that passes before each timeout processing
#define DT_ACK RMC_DEFAULT_ACK_TIMEOUT
#define DT_RESEND RMC_DEFAULT_PACKET_TIMEOUT
#endif
#ifndef ROUNDS
#define ROUNDS 3
#endif
#ifndef LATE
#define LATE 0       // packets sent during the events
#endif
#define NP (BASE + N)
#define VP_NPAY (2 * NP + K + 2)
#define VP_PAYLEN (MAXLEN + 1)
#define VP_DGRAM_LEN (20 + MAXLEN)
#define VP_NDGRAM (NP + 1)
#define VP_STREAM ((NP + 1) * (24 + MAXLEN) + 17 * (NP + K))
#define VP_MAXCONN 1
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#include <stdint.h>
static uint32_t limit = 0xffffffff;
#define VP_WRITE_CHUNK(n) ((n) < limit ? (n) : limit)
#include "vp_world.h"
static rmc_pub_context_t* pub;
static rmc_sub_context_t* sub;
static uint8_t text[NP][MAXLEN + 1];
static uint32_t len[NP], nsent, ngot;
static int pfd, sfd;
static void move(int from, int to, uint32_t n)
{
    uint8_t op;
    vp_tx[from].len = 0;
    limit = n;
    if (from == sfd) rmc_sub_write(sub, 0, &op);
    else rmc_pub_write(pub, 0, &op);
    limit = 0xffffffff;
    if (!vp_tx[from].len) return;
    vp_rx[to].len = vp_rx[to].pos = 0;
    VP_COPY(vp_rx[to].b, vp_tx[from].b, vp_tx[from].len, VP_STREAM);
    vp_rx[to].len = vp_tx[from].len;
    if (to == pfd) rmc_pub_read(pub, 0, &op);
    else rmc_sub_read(sub, 0, &op);
}
static void send_next(void)
{
    uint32_t j;
    uint8_t op;
    if (nsent == NP) return;
    len[nsent] = LEN(nsent);
    for (j = 0; j < 2; ++j) text[nsent][j ? (len[nsent] ? len[nsent] - 1 : 0) : 0] = vp_u8();
    VP_COPY(vp_pay[nsent], text[nsent], len[nsent], MAXLEN);
    VP_ASSERT(vp_pub_queue(pub, nsent, len[nsent]) == 0, "a packet is accepted");
    VP_ASSERT(rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op) == 0, "a packet is sent");
    nsent++;
    VP_ASSERT(vp_out_n == nsent, "a packet leaves as one datagram");
}
static void arrive(uint32_t i)
{
    if (i >= nsent) return;
#if BASE == 0 && !defined(FIRST_LOST)
    // The subscriber takes the first packet it gets for the first of all (see KF20a).
    if (i && !ngot && !rmc_sub_get_dispatch_ready_count(sub)) return;
#endif
    vp_sub_datagram(sub, vp_out[i].b, vp_out[i].len);
}
static void application(void)
{
    sub_packet_t* p;
    uint32_t n;
    for (n = 0; n <= NP; ++n) {
        uint8_t* b;
        p = rmc_sub_get_next_dispatch_ready(sub);
        if (!p) return;
        b = rmc_sub_packet_payload(p);
        VP_ASSERT(ngot < nsent, "no more packets are delivered than were sent");
        VP_ASSERT(rmc_sub_packet_payload_len(p) == len[ngot], "packets arrive in order with their lengths");
        if (len[ngot]) VP_ASSERT(b[0] == text[ngot][0] && b[len[ngot] - 1] == text[ngot][len[ngot] - 1], "packets arrive in order with their bytes");
        ngot++;
        rmc_sub_packet_dispatched(sub, p);
    }
    VP_ASSERT(0, "no more packets are delivered than were sent");
}
static void event(void)
{
    uint32_t o = vp_pick(0, 5 + NP + (LATE ? 1 : 0) - BASE);
    switch (o) {
    case 0: vp_now += DT_ACK; rmc_sub_timeout_process(sub); break;
    case 1: vp_now += DT_RESEND; rmc_pub_timeout_process(pub); break;
    case 2: move(sfd, pfd, 0xffffffff); break;
    case 3: move(pfd, sfd, 0xffffffff); break;
    case 4: move(sfd, pfd, PART); break;
    case 5: move(pfd, sfd, PART); break;
    default:
        if (o - 6 == NP - BASE) send_next();
        else arrive(BASE + o - 6);
    }
}
void harness(void)
{
    uint32_t i, q, n, a;
    uint8_t op;
    vp_addr[1] = 0x0a000001;
    vp_pay_next = NP;                  // slots below are the publisher's
    pub = vp_pub_new(7, 1);
    sub = vp_sub_new(8, 1);
    VP_ASSERT(rmc_pub_activate_context(pub) == 0 && rmc_sub_activate_context(sub) == 0, "activation succeeds");
#ifdef ACCEPT_LATE
    vp_sub_connect(sub, 0, 7, 0x0a000001, VP_CTRL_PORT);
    sfd = vp_poll_fd[VP_SUB];
    send_next(); arrive(0);
    send_next();                       // lost
    vp_pub_accept(pub, 0x7f000001, 4000);
    pfd = vp_poll_fd[0];
    send_next(); arrive(2);
#else
    vp_pub_accept(pub, 0x7f000001, 4000);
    vp_sub_connect(sub, 0, 7, 0x0a000001, VP_CTRL_PORT);
    pfd = vp_poll_fd[0]; sfd = vp_poll_fd[VP_SUB];
    for (i = 0; i < BASE; ++i) { send_next(); arrive(i); }
    for (i = BASE; i < NP - LATE; ++i) send_next();
#ifdef FIRST_LOST
    arrive(1);                         // packet 1 is lost
#else
    for (i = 0; i < K; ++i) event();
    for (i = 0; i < LATE; ++i) send_next();
#endif
#endif
    // From here on the network is kind.
    for (i = 0; i < ROUNDS; ++i) {
        vp_now += RMC_DEFAULT_ACK_TIMEOUT; rmc_sub_timeout_process(sub);
        move(sfd, pfd, 0xffffffff);
        vp_now += RMC_DEFAULT_PACKET_TIMEOUT; rmc_pub_timeout_process(pub);
        move(pfd, sfd, 0xffffffff);
        if (i == 0) application();
    }
    application();
    VP_ASSERT(ngot == nsent, "every packet has been delivered");
    VP_ASSERT(rmc_pub_context_get_pending(pub, &q, &n, &a) == 0 && q + n + a == 0, "nothing is pending at the publisher");
    for (i = 0; i < NP; ++i) VP_ASSERT(vp_pay_frees[i] == 1, "every payload has been released, once");
    VP_WITNESS("end");
}
