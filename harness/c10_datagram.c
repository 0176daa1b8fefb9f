// C10: any datagram - any bytes, any length - between two valid packets of a connected publisher.
#define VP_NPAY 8
#ifndef N
#define N 24                        // longest datagram with free content
#endif
#ifndef NB
#define NB N                       // bytes made symbolic and compared, the header among them
#endif
#define VP_PAYLEN (N + 8)
#define VP_NDGRAM 1
#define VP_DGRAM_LEN (N + 20)
#define VP_STREAM 128
#define VP_MAXCONN 3
#define VP_OWN_CONNECT
#include "vp_world.h"
#include <stddef.h>
static rmc_sub_context_t* ctx;
static int announces, connects, ready_cbs;
static uint32_t ann_ip, con_ip; static uint16_t ann_port, con_port; static uint32_t ann_node; static uint32_t ann_len;
static uint8_t ann_pay[4], ann_res;
static uint8_t d[N + 20];
int vp_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    connects++;
    con_ip = ntohl(((struct sockaddr_in*) a)->sin_addr.s_addr);
    con_port = ntohs(((struct sockaddr_in*) a)->sin_port);
    errno = EINPROGRESS; return -1;
}
static uint8_t announce(rmc_sub_context_t* c, uint32_t ip, in_port_t port, rmc_node_id_t node, void* p, payload_len_t len)
{
    int i;
    announces++;
    ann_ip = ip; ann_port = port; ann_node = node; ann_len = len;
    for (i = 0; i < 4; ++i) if (i < len) ann_pay[i] = ((uint8_t*) p)[i];
    return ann_res;
}
static void ready(rmc_sub_context_t* c) { ready_cbs++; }
// The next packet of the connected publisher; it must arrive.
static void valid(uint64_t pid, uint8_t byte, int now)
{
    vp_packet_t k;
    sub_packet_t* p;
    vp_packet(&k, pid, 5, 0x7f000001, VP_CTRL_PORT, 1);
    k.p[0] = byte;
    vp_sub_datagram(ctx, &k, sizeof(k.h) + 1);
    if (!now) return;
    p = rmc_sub_get_next_dispatch_ready(ctx);
    VP_ASSERT(p != 0, "the next valid packet is received");
    VP_ASSERT(p->pid == pid && rmc_sub_packet_payload_len(p) == 1 && *(uint8_t*) rmc_sub_packet_payload(p) == byte, "the next valid packet is received intact");
    rmc_sub_packet_dispatched(ctx, p);
}
void harness(void)
{
    packet_header_t h;
    uint32_t len, i, n, had, alive = 0, idx;
    int res;
    uint64_t from;
    uint8_t op = 0, complete, known, connecting;
    sub_packet_t* p;
    ctx = vp_sub_new(77, 3);
    VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "activation succeeds");
    vp_sub_connect(ctx, 0, 5, 0x7f000001, VP_CTRL_PORT);
    rmc_sub_set_announce_callback(ctx, announce);
    rmc_sub_set_packet_ready_callback(ctx, ready);
    connects = 0;
    // a second publisher is being connected to
    { vp_packet_t k; vp_packet(&k, 0, 6, 0x7f000002, VP_CTRL_PORT, 0); ann_res = 1; vp_sub_datagram(ctx, &k, sizeof(k.h)); }
    VP_ASSERT(announces == 1 && connects == 1, "an announcement is followed");
    announces = connects = 0;
    ann_res = vp_flag();
    from = FROM;
    valid(from, 7, 1);
    had = vp_pay_next;
    ready_cbs = 0;

    len = LENGTH;
    for (i = 0; i < NB; ++i) d[i] = vp_u8();
    if (NB < N) { d[len - 1] = vp_u8(); }
    memcpy(&h, d, sizeof(h));
    FIX
    vp_src_addr = vp_u32();
    vp_in = d; vp_in_len = len;
    res = rmc_sub_read(ctx, RMC_MULTICAST_INDEX, &op);

    complete = len >= sizeof(h) && len >= sizeof(h) + h.payload_len;
    VP_ASSERT(len == 0 || complete || res == EPROTO, "a datagram shorter than its header says is rejected");
    VP_ASSERT(!complete || res == 0, "a complete datagram is no error");
    known = connecting = 0;
    if (complete) {
        uint32_t ip = h.listen_ip ? h.listen_ip : vp_src_addr;
        known = ip == 0x7f000001 && h.listen_port == VP_CTRL_PORT;
        connecting = ip == 0x7f000002 && h.listen_port == VP_CTRL_PORT;
        if (!known && !connecting && h.pid == 0) {
            VP_ASSERT(announces == 1 && ann_ip == ip && ann_port == h.listen_port && ann_node == h.node_id && ann_len == h.payload_len, "an announcement is shown to the application as it is");
            for (i = 0; i < 4; ++i) VP_ASSERT(i >= h.payload_len || ann_pay[i] == d[sizeof(h) + i], "an announcement is shown with its payload");
            VP_ASSERT(connects == ann_res && (!connects || (con_ip == ip && con_port == h.listen_port)), "it is connected to if the application agrees");
            alive = 1;
        }
    }
    if (!alive) VP_ASSERT(announces == 0 && connects == 0, "nothing else makes the subscriber connect or ask");
    if (complete && known && h.pid > from) {
        VP_ASSERT(vp_pay_next == had + 1 && vp_pay_len[had] == h.payload_len, "a complete packet is kept with its length");
        for (i = 0; i < NB - sizeof(h); ++i) VP_ASSERT(i >= h.payload_len || vp_pay[had][i] == d[sizeof(h) + i], "a complete packet is kept with its payload");
        VP_ASSERT(!h.payload_len || vp_pay[had][h.payload_len - 1] == d[sizeof(h) + h.payload_len - 1], "a complete packet is kept with its payload to the last byte");
        n = h.pid == from + 1;
    } else {
        VP_ASSERT(vp_pay_next == had, "nothing is kept of anything else");
        n = 0;
    }
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == n && ready_cbs == n, "nothing but the next packet of a connected publisher is delivered");
    if (n) {
        p = rmc_sub_get_next_dispatch_ready(ctx);
        VP_ASSERT(rmc_sub_packet_payload(p) == (void*) vp_pay[had] && p->pid == from + 1, "the packet delivered is the one received");
        rmc_sub_packet_dispatched(ctx, p);
        from++;
    }
    valid(from + 1, 9, 1);
    if (complete && known && !n && h.pid == from + 2) {
        p = rmc_sub_get_next_dispatch_ready(ctx);
        VP_ASSERT(p && rmc_sub_packet_payload(p) == (void*) vp_pay[had], "a packet that came early follows");
    } else
        VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == 0, "nothing else is delivered");
    // what is acknowledged are the packets that came
    vp_now += RMC_DEFAULT_ACK_TIMEOUT;
    VP_ASSERT(rmc_sub_timeout_process(ctx) == 0, "timeout processing succeeds");
    VP_REACH(n == 1, "the datagram was the next packet");
    VP_REACH(alive, "the datagram was an announcement");
    VP_REACH(len >= sizeof(h) && !complete, "the datagram was too short");
    VP_WITNESS("end");
}
