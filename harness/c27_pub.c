// C27, publisher: callbacks that use the library themselves. Histories of K events; in the callbacks up to B actions in all.
#ifndef K
#define K 2
#endif
#ifndef B
#define B 2
#endif
#ifndef NS
#define NS 2
#endif
#ifndef CONN
#define CONN NS
#endif
#ifndef PRE
#define PRE 2
#endif
#define NP (PRE + K + B + 1)
#define VP_NPAY NP
#define VP_NDGRAM (NP + 2 * K + 2)
#define VP_MAXCONN NS
#define VP_MAXFD (12 + 2 * K)
#define VP_NSTREAM VP_MAXFD
#define VP_STREAM 96
#define VP_PUB_FREE on_free
#include "vp.h"
#include "rmc_internal.h"
static void on_free(void* p, payload_len_t len, user_data_t u);
#include "vp_world.h"
#define PEER(s, n) (0x0a000000 + 16 * (n) + (s))
static rmc_pub_context_t* pub;
static uint32_t np, nsent, active, budget, peers, refused, msg_n, msg_got, msg_fd, joining, leaves;
static uint8_t conn[NS], closing[NS], is_sent[NP];
static uint32_t addr[NS], owed[NS];
static void gone(uint32_t s) { conn[s] = 0; owed[s] = 0; }
// ---- what the application does, in callbacks and outside ----
static void queue(void)
{
    if (np == NP - 1) return;
    VP_ASSERT(vp_pub_queue(pub, np, 1) == 0, "a packet can be queued");
    np++;
    VP_ASSERT(rmc_pub_queue_length(pub) >= 1, "queued packets are counted");
}
static uint32_t sent_by_now(void)
{
    uint32_t i, n = 0;
    for (i = 0; i < vp_out_n; ++i)
        if (((packet_header_t*) vp_out[i].b)->pid) n++;
    return n;
}
static void send_all(void)
{
    uint8_t op;
    uint32_t s, want = np, n;
    int res = rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op);
    n = sent_by_now();
    if (!active) { VP_ASSERT((res || np == nsent) && n == nsent, "nothing is sent while inactive"); return; }
    VP_ASSERT(res == 0 || res == ENODATA, "queued packets can be sent");
    VP_ASSERT(n >= want && n <= np, "what was queued is sent");
    while (nsent < n) {
        for (s = 0; s < NS; ++s)
            if (conn[s]) owed[s] |= 1u << nsent;
        is_sent[nsent++] = 1;
    }
}
static void leave(uint32_t s)
{
    uint32_t was = conn[s], mine = closing[s], had = leaves;
    int res = rmc_pub_close_connection(pub, s);
    if (mine) return;      // its own end is being reported
    VP_ASSERT((res == 0) == was, "a connection can be closed, once");
    VP_ASSERT(leaves >= had + was && !conn[s], "its end is reported");
}
static void stop(void)
{
    uint32_t s;
    active = 0;
    VP_ASSERT(rmc_pub_deactivate_context(pub) == 0, "deactivation succeeds");
    for (s = 0; s < NS; ++s) VP_ASSERT(!conn[s], "deactivation reports the end of every connection");
}
static void act(void)
{
    uint32_t o;
    if (!budget) return;
    o = vp_pick(0, 4);
    if (!o) return;
    budget--;
    switch (o) {
    case 1: queue(); break;
    case 2: send_all(); break;
    case 3: leave(NS > 1 ? vp_pick(0, NS - 1) : 0); break;
    case 4: stop(); break;
    }
}
// ---- callbacks ----
static void on_free(void* p, payload_len_t len, user_data_t u)
{
    vp_payload_free(p, len, u);
    if (budget && vp_flag()) { budget--; queue(); }
}
static uint8_t on_connect(rmc_pub_context_t* c, uint32_t a, uint16_t p)
{
    uint32_t s = joining;
    VP_ASSERT(c == pub && s < NS && a == addr[s] && p == 7, "a connection is reported with its address");
    conn[s] = 1;
    joining = NS;
    act();
    refused = vp_flag();
    return !refused;
}
static void on_disconnect(rmc_pub_context_t* c, uint32_t a, uint16_t p)
{
    uint32_t s;
    for (s = 0; s < NS; ++s)
        if (conn[s] && addr[s] == a) break;
    VP_ASSERT(c == pub && s < NS && p == 7, "the end of a connection is reported once, with its address");
    if (s == NS) return;
    gone(s);
    leaves++;
    closing[s] = 1;
    act();
    closing[s] = 0;
}
static void on_message(rmc_pub_context_t* c, uint32_t a, uint16_t p, rmc_node_id_t n, void* text, payload_len_t len)
{
    uint32_t s = msg_fd;
    VP_ASSERT(c == pub && s < NS && conn[s] && a == addr[s] && p == 7 && len == 1, "messages come from connected subscribers");
    VP_ASSERT(msg_got < msg_n && ((uint8_t*) text)[0] == 'a' + msg_got, "messages arrive once, in order, intact");
    msg_got++;
    act();
    VP_ASSERT(((uint8_t*) text)[0] == 'a' + msg_got - 1, "the message stays intact");
}
static uint8_t on_announce(rmc_pub_context_t* c, void* p, payload_len_t max, payload_len_t* len)
{
    act();
    *len = 0;
    return vp_flag();
}
// ---- events ----
static uint32_t some(void) { return NS > 1 ? vp_pick(0, NS - 1) : 0; }
static void put(uint32_t s, const void* p, uint32_t n)
{
    vp_stream_t* r = &vp_rx[vp_poll_fd[s]];
    vp_stream_put(r, p, n);
}
static void event(void)
{
    uint32_t o = vp_pick(0, 6), s, i, lo, hi;
    uint8_t op;
    int res;
    switch (o) {
    case 0: queue(); send_all(); break;
    case 1:     // a subscriber acknowledges, after a message or before one
    case 2:     // a subscriber sends two messages
        s = some();
        if (!conn[s]) break;
        vp_rx[vp_poll_fd[s]].len = vp_rx[vp_poll_fd[s]].pos = 0;
        msg_fd = s; msg_got = 0; msg_n = o == 1 ? vp_flag() : 2;
        lo = hi = 0;
        for (i = 0; i < msg_n; ++i) {
            uint8_t m[4] = { RMC_CMD_CONTROL_MESSAGE, 1, 0, 'a' + i };
            put(s, m, 4);
        }
        if (o == 1) {
            struct { uint8_t c; uint64_t a, b; } __attribute__((packed)) m = { RMC_CMD_ACK_INTERVAL };
            m.a = vp_pick(1, NP); m.b = vp_flag() ? NP : m.a;
            lo = m.a; hi = m.b;
            put(s, &m, 17);
        }
        res = rmc_pub_read(pub, s, &op);
        VP_ASSERT(res == 0, "reading succeeds");
        VP_ASSERT(!conn[s] || msg_got == msg_n, "all messages arrive");
        if (conn[s])
            for (i = lo; i && i <= hi; ++i) owed[s] &= ~(1u << (i - 1));
        break;
    case 3:     // a subscriber connects
        if (!active) break;
        for (s = 0; s < NS && conn[s]; ++s);
        if (s == NS) break;
        addr[s] = PEER(s, ++peers);
        joining = s;
        vp_peer_addr = addr[s]; vp_peer_port = 7;
        VP_ASSERT(rmc_pub_read(pub, RMC_LISTEN_INDEX, &op) == 0, "accepting succeeds");
        if (refused && conn[s]) gone(s);
        VP_ASSERT(joining == NS, "the application is asked about a new connection");
        break;
    case 4:     // a subscriber ends the connection
        s = some();
        if (!conn[s]) break;
        vp_rx[vp_poll_fd[s]].len = vp_rx[vp_poll_fd[s]].pos = 0;
        VP_ASSERT(rmc_pub_read(pub, s, &op) == 0 && !conn[s], "the end of a connection is found out");
        break;
    case 5:     // an announcement is due
        rmc_pub_set_announce_interval(pub, 5);
        vp_now += 6;
        VP_ASSERT(rmc_pub_timeout_process(pub) == 0, "timeouts are processed");
        rmc_pub_set_announce_interval(pub, 0);
        break;
    case 6: if (active) stop(); else { VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds"); active = 1; } break;
    }
}
static void compare(void)
{
    uint32_t s, i, n = 0, all = 0, pid = 0;
    for (s = 0; s < NS; ++s) {
        VP_ASSERT(!vp_poll_on[s] == !conn[s], "exactly the open connections are watched");
        n += conn[s]; all |= owed[s];
    }
    VP_ASSERT(rmc_pub_get_subscriber_count(pub) == n && vp_fd_count == n + 2 * active && rmc_pub_get_socket_count(pub) == n + 2 * active, "connections and sockets are counted");
    VP_ASSERT(!vp_poll_on[VP_SLOT_MCAST] == !active && !vp_poll_on[VP_SLOT_LISTEN] == !active, "an active context watches its sockets");
    for (i = 0; i < NP; ++i)
        VP_ASSERT(vp_pay_frees[i] == (is_sent[i] && !(all >> i & 1)), "a payload is released once when nobody needs it any longer");
    for (i = 0; i < vp_out_n; ++i) {
        packet_header_t* h = (packet_header_t*) vp_out[i].b;
        if (!h->pid) continue;
        pid++;
        VP_ASSERT(h->pid == pid && vp_out[i].b[sizeof(*h)] == vp_pay[pid - 1][0], "packets are sent once, in order");
    }
    VP_ASSERT(pid == nsent, "every packet is sent");
}
void harness(void)
{
    uint32_t k;
    pub = vp_pub_new(9, NS);
    for (k = 0; k < NP; ++k) vp_pay[k][0] = 'A' + k;
    VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds");
    active = 1; joining = NS;
    for (k = 0; k < CONN; ++k) {
        addr[k] = PEER(k, 0);
        vp_pub_accept(pub, addr[k], 7);
        conn[k] = 1;
    }
    rmc_pub_set_subscriber_connect_callback(pub, on_connect);
    rmc_pub_set_subscriber_disconnect_callback(pub, on_disconnect);
    rmc_pub_set_control_message_callback(pub, on_message);
    rmc_pub_set_announce_callback(pub, on_announce);
    for (k = 0; k < PRE; ++k) queue();
    if (PRE) send_all();
    budget = B;
    for (k = 0; k < K; ++k) { event(); compare(); }
    VP_REACH(!budget && active && conn[0], "everything still up after actions in callbacks");
    VP_REACH(!budget && !active, "stopped in a callback");
    budget = 0;
    if (!active) { VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds"); active = 1; }
    VP_ASSERT(vp_pub_queue(pub, NP - 1, 1) == 0, "a packet can be queued");
    {
        uint8_t op;
        VP_ASSERT(rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op) == 0, "sending goes on");
        VP_ASSERT(((packet_header_t*) vp_out[vp_out_n - 1].b)->pid == np + 1, "numbering goes on");
    }
    rmc_pub_delete_context(pub);
    VP_ASSERT(!vp_fd_count && !vp_heap_live, "everything is released at the end");
    for (k = 0; k < NP; ++k) VP_ASSERT(vp_pay_frees[k] == (k < np || k == NP - 1), "every payload is released once");
    VP_WITNESS("end");
}
