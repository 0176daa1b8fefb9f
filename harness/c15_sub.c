// C15, subscriber: announcements with any address, port, node id, payload, source and decision, in every state of the connection.
#ifndef K
#define K 3
#endif
#ifndef MAXLEN
#define MAXLEN 2
#endif
#ifndef NPEER
#define NPEER 2
#endif
#define VP_NPAY 8
#define VP_NDGRAM 2
#define VP_DGRAM_LEN (20 + MAXLEN)
#define VP_MAXCONN 3
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#define VP_OWN_CONNECT
#include <stdint.h>
#include "vp.h"
#include "vp_world.h"
static rmc_sub_context_t* sub;
static struct { uint32_t ip; uint16_t port; rmc_node_id_t node; int state, slot; } peer[NPEER];  // state 0 none, 1 connecting, 2 connected
static vp_packet_t k;
static uint32_t asked, connects, agree, len, done, want_ip;
static uint16_t want_port;
static rmc_node_id_t want_node;
static uint8_t text[MAXLEN + 1];
int vp_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    VP_ASSERT(vp_fd_is_open(fd), "connects an open descriptor");
    VP_ASSERT(in->sin_family == AF_INET && ntohl(in->sin_addr.s_addr) == want_ip && ntohs(in->sin_port) == want_port, "connects to the announced address");
    connects++;
    errno = EINPROGRESS;
    return -1;
}
static uint8_t on_announce(rmc_sub_context_t* c, uint32_t ip, uint16_t port, rmc_node_id_t node, void* p, payload_len_t n)
{
    uint32_t i;
    VP_ASSERT(c == sub && ip == want_ip && port == want_port && node == want_node && n == len, "the application learns address, port, node id and length");
    for (i = 0; i < MAXLEN; ++i)
        if (i < n) VP_ASSERT(((uint8_t*) p)[i] == text[i], "the application gets the announced payload");
    VP_ASSERT(!connects, "the application is asked before connecting");
    asked++;
    return agree;
}
static void on_complete(rmc_sub_context_t* c, uint32_t ip, uint16_t port, rmc_node_id_t node)
{
    VP_ASSERT(c == sub && ip == want_ip && port == want_port && node == want_node, "the application learns which subscription is complete");
    done++;
}
void harness(void)
{
    uint32_t s, i, j, has_cb = vp_flag(), again = 0, ended = 0, lost = 0;
    uint8_t op;
    for (i = 0; i < NPEER; ++i) {
        peer[i].ip = vp_u32(); peer[i].port = vp_u16(); peer[i].node = vp_u32();
        VP_ASSUME(peer[i].ip);
        for (j = 0; j < i; ++j) VP_ASSUME(peer[i].ip != peer[j].ip || peer[i].port != peer[j].port);
    }
    sub = vp_sub_new(4, 3);
    if (has_cb) rmc_sub_set_announce_callback(sub, on_announce);
    rmc_sub_set_subscription_complete_callback(sub, on_complete);
    VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds");
    for (s = 0; s < K; ++s) {
        uint32_t w = vp_range(0, NPEER - 1);
        uint32_t o = vp_range(0, 3);
        want_ip = peer[w].ip; want_port = peer[w].port; want_node = peer[w].node;
        asked = connects = done = 0;
        if (o == 0) {           // an announcement, with the address or without
            uint32_t named = vp_flag();
            len = vp_range(0, MAXLEN);
            agree = vp_u8();
            vp_src_addr = named ? vp_u32() : want_ip;
            for (i = 0; i < MAXLEN; ++i) k.p[i] = text[i] = vp_u8();
            vp_packet(&k, 0, want_node, named ? want_ip : 0, want_port, len);
            vp_sub_datagram(sub, &k, sizeof(k.h) + len);
            if (peer[w].state) {
                VP_ASSERT(!asked && !connects, "an announcement of a publisher already connected or connecting is passed over");
                again = 1;
            } else {
                VP_ASSERT(asked == has_cb, "the application is asked, once");
                VP_ASSERT(connects == (!has_cb || agree), "one connection is opened if the application agrees, none if it declines");
                if (connects) {
                    int n = 0;
                    for (i = 0; i < 3; ++i) {
                        for (j = 0; j < NPEER; ++j) if (peer[j].state && peer[j].slot == (int) i) break;
                        if (j == NPEER && vp_poll_on[VP_SUB + i]) { peer[w].slot = i; n++; }
                    }
                    VP_ASSERT(n == 1 && (vp_poll_act[VP_SUB + peer[w].slot] & RMC_POLLWRITE), "the new connection is watched for its completion");
                    peer[w].state = 1;
                }
            }
            VP_ASSERT(!done, "a subscription is complete only when connected");
        } else if (o == 1) {    // the connection completes, or fails
            if (peer[w].state != 1) continue;
            vp_so_error = vp_flag() ? EHOSTUNREACH : 0;
            i = rmc_sub_write(sub, peer[w].slot, &op);
            VP_ASSERT(op == RMC_COMPLETE_CONNECTION && (int) i == vp_so_error, "the outcome of the connection is reported");
            VP_ASSERT(done == !vp_so_error, "a subscription that is complete is reported, once");
            peer[w].state = vp_so_error ? 0 : 2;
            if (vp_so_error) ended = 1;
        } else if (o == 2) {    // it is closed by either side
            if (!peer[w].state) continue;
            if (peer[w].state == 2 && vp_flag()) {
                VP_ASSERT(rmc_sub_read(sub, peer[w].slot, &op) == 0 && op == RMC_READ_DISCONNECT, "the peer's close is reported");
            } else VP_ASSERT(rmc_sub_close_connection(sub, peer[w].slot) == 0, "an open connection can be closed");
            peer[w].state = 0;
            ended = 1;
        } else {                // a data packet asks for nothing
            vp_packet(&k, 1 + s, want_node, want_ip, want_port, 0);
            vp_sub_datagram(sub, &k, sizeof(k.h));
            VP_ASSERT(!asked && !connects && !done, "data leads to no subscription");
            if (peer[w].state != 2) { VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == (int) lost, "data without a subscription is dropped"); }
            else lost = rmc_sub_get_dispatch_ready_count(sub);
        }
        for (i = j = 0; i < NPEER; ++i) j += peer[i].state != 0;
        VP_ASSERT(rmc_sub_get_publisher_count(sub) == j, "exactly the agreed subscriptions exist");
    }
    VP_REACH(again, "announced again");
    VP_REACH(ended && connects, "announced again after the end");
    VP_WITNESS("end");
}
