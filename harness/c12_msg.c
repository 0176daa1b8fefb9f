// C12: control messages from the subscriber's send calls to the publisher's callback. Two connections; streams moved in pieces.
#ifndef K
#define K 2
#endif
#ifndef LEN
#define LEN vp_pick(0, 3)
#endif
#ifndef CAP
#define CAP (7 * K)
#endif
#ifndef PRE
#define PRE 0        // bytes that went through the rings before
#endif
#define VP_NPAY 2
#define VP_NDGRAM 2
#define VP_STREAM (CAP)
#define VP_MAXCONN 2
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#include <stdint.h>
static uint32_t w_limit = 0xffffffff;
#define VP_WRITE_CHUNK(n) ((n) < w_limit ? (n) : w_limit)
#include "vp_world.h"
#ifndef MAXLEN
#define MAXLEN 3
#endif
static rmc_pub_context_t* pub;
static rmc_sub_context_t* sub;
static uint8_t text[K + 2][MAXLEN + 1];
static struct { uint32_t to, len, at; } sent[K + 2];
static uint32_t nsent, ngot[2], nacc[2];
static uint32_t quiet[2];  // messages sent before, still to arrive
static uint32_t used[2];   // bytes waiting in each connection's buffer
static int sfd[2], pfd[2];
static void control(rmc_pub_context_t* c, uint32_t addr, uint16_t port, rmc_node_id_t node, void* p, payload_len_t len)
{
    uint32_t i, k = 0, to = addr - 0x7f000011;
    VP_ASSERT(c == pub, "the publisher's own context is passed");
    VP_ASSERT(to < 2 && port == 4001 + to, "the sender's address and port are passed");
    if (quiet[to]) { quiet[to]--; return; }
    for (i = 0; i < nsent; ++i)
        if (sent[i].to == to && k++ == ngot[to]) {
            VP_ASSERT(len == sent[i].len, "a message arrives with its length");
#ifdef BIG
            VP_ASSERT(((uint8_t*) p)[0] == text[i][0] && ((uint8_t*) p)[len - 1] == text[i][len - 1], "a message arrives with its bytes");
            VP_ASSERT(((uint8_t*) p)[len / 2] == text[i][len / 2], "a message arrives with its bytes");
#else
            uint32_t j;
            for (j = 0; j < len; ++j) VP_ASSERT(((uint8_t*) p)[j] == text[i][j], "a message arrives with its bytes");
#endif
            ngot[to]++;
            return;
        }
    VP_ASSERT(0, "a message arrives once, at the publisher it was sent to");
}
static void move_one(int s, int p, uint32_t n)
{
    uint8_t op;
    uint32_t m;
    vp_tx[s].len = 0;
    w_limit = n;
    if (!n) return;
    rmc_sub_write(sub, s == sfd[1], &op);
    m = vp_tx[s].len;
    if (!m) return;
    used[s == sfd[1]] -= used[s == sfd[1]] ? m : 0;
    vp_rx[p].len = vp_rx[p].pos = 0;
    memcpy(vp_rx[p].b, vp_tx[s].b, m);
    vp_rx[p].len = m;
    rmc_pub_read(pub, p == pfd[1], &op);
    if (vp_rx[p].pos < m) rmc_pub_read(pub, p == pfd[1], &op);   // what did not fit is read once there is room
    VP_ASSERT(vp_rx[p].pos == m, "what arrives is taken from the socket");
}
static void send_one(int i)
{
    uint32_t to = vp_flag(), len = LEN;
    int res, by = vp_flag(), fits;
#ifdef TEXT
    TEXT;
#else
    uint32_t j;
    for (j = 0; j < MAXLEN; ++j) text[i][j] = vp_u8();
#endif
    fits = used[to] + len + 4 <= RMC_MAX_PACKET - 1;
    sent[nsent].to = to; sent[nsent].len = len;
    res = by ? rmc_sub_write_control_message_by_node_id(sub, 5 + to, text[nsent], len)
             : rmc_sub_write_control_message_by_address(sub, 0x7f000001 + to, 2001 + to, text[nsent], len);
    if (len && fits) VP_ASSERT(!res, "a message that fits is accepted");
    if (!len) VP_ASSERT(res == EINVAL, "an empty message is refused");
    if (!res) {
        nsent++; nacc[to]++; used[to] += len + 3;
        VP_ASSERT(vp_poll_act[VP_SUB + to] & RMC_POLLWRITE, "the connection is watched for writing");
    }
}
void harness(void)
{
    uint32_t i;
    uint8_t op;
    pub = vp_pub_new(9, 2);
    VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds");
    rmc_pub_set_control_message_callback(pub, control);
    sub = vp_sub_new(5, 2);
    VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds");
    for (i = 0; i < 2; ++i) {
        vp_pub_accept(pub, 0x7f000011 + i, 4001 + i);
        vp_sub_connect(sub, i, 5 + i, 0x7f000001 + i, 2001 + i);
        pfd[i] = vp_poll_fd[i]; sfd[i] = vp_poll_fd[VP_SUB + i];
    }
    if (PRE) {   // a long message moves the positions in the rings; bytes of a short one stay, so that they do not start over
        static uint8_t long_[RMC_MAX_PACKET];
        uint32_t n = PRE;
        for (i = 0; i < 2; ++i) {
            quiet[i] = 2;
            VP_ASSERT(rmc_sub_write_control_message_by_node_id(sub, 5 + i, long_, n - 3) == 0, "a long message is accepted");
            VP_ASSERT(rmc_sub_write_control_message_by_node_id(sub, 5 + i, long_, 1) == 0, "a short message is accepted");
            used[i] = n + 4;
            move_one(sfd[i], pfd[i], n + 3);
            VP_ASSERT(quiet[i] == 1 && used[i] == 1, "a long message arrives, and part of a short one");
        }
    }
    for (i = 0; i < K; ++i) {
        send_one(i);
#ifdef CUT
        { uint32_t t = vp_flag(); CUT; }
#endif
    }
    for (i = 0; i < 2; ++i) {
        move_one(sfd[i], pfd[i], 0xffffffff);
        move_one(sfd[i], pfd[i], 0xffffffff);
        VP_ASSERT(ngot[i] == nacc[i] && !quiet[i], "every accepted message arrives");
        VP_ASSERT(vp_poll_act[VP_SUB + i] == RMC_POLLREAD, "nothing is left to send");
    }
    VP_REACH(nacc[0] + nacc[1] == K, "all accepted");
    // Whatever was refused has left nothing behind that later messages would run into.
    for (i = 0; i < 2; ++i) {
        text[nsent][0] = vp_u8();
        sent[nsent].to = i; sent[nsent].len = 1;
        nsent++; nacc[i]++;
        VP_ASSERT(rmc_sub_write_control_message_by_node_id(sub, 5 + i, text[nsent - 1], 1) == 0, "there is room again");
        move_one(sfd[i], pfd[i], 0xffffffff);
        move_one(sfd[i], pfd[i], 0xffffffff);
        VP_ASSERT(ngot[i] == nacc[i], "a later message arrives");
    }
    VP_ASSERT(rmc_sub_write_control_message_by_node_id(sub, 7, text[0], 1) == ENOTCONN, "nobody has that node id");
    VP_ASSERT(rmc_sub_write_control_message_by_address(sub, 0x7f000001, 2002, text[0], 1) == ENOTCONN, "nobody has that address");
    VP_WITNESS("end");
}
