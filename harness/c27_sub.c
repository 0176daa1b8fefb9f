// C27, subscriber: callbacks that use the library themselves. Histories of K events; in the callbacks up to B actions in all.
#ifndef K
#define K 2
#endif
#ifndef B
#define B 2
#endif
#ifndef NPUB
#define NPUB 2
#endif
#ifndef CONN
#define CONN NPUB
#endif
#define NA 2                // arrivals in one event
#define NR (2 * K + 4)
#define VP_NPAY NR
#define VP_PAYLEN 4
#define VP_NDGRAM 1
#define VP_MAXCONN NPUB
#define VP_MAXFD (10 + 2 * K)
#define VP_NSTREAM VP_MAXFD
#define VP_STREAM 128
#define VP_OWN_RECVFROM2
#include "vp_world.h"
static rmc_sub_context_t* sub;
static uint32_t active, budget, joining, completing, nready, taken;
static struct { uint8_t w, slot, pid; } ready[NR];
static uint8_t conn[NPUB];      // 1 connecting, 2 connected
static uint8_t slot[NPUB];      // its connection index
static uint32_t first[NPUB], next[NPUB], got[NPUB];
// ---- what arrives in an event; the callbacks go through it ----
static vp_packet_t in[NA];
static uint8_t in_w[NA], in_pid[NA];
static uint32_t in_n, in_at, in_pos, by_tcp;
ssize_t vp_recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* a, socklen_t* l)
{
    VP_ASSERT(vp_fd_is_open(fd), "datagrams are read from an open descriptor");
    if (by_tcp || in_pos >= in_n) { errno = EAGAIN; return -1; }
    VP_COPY(buf, &in[in_pos], sizeof(packet_header_t) + 1, sizeof(vp_packet_t));
    ((struct sockaddr_in*) a)->sin_addr.s_addr = htonl(0x0a000001);
    in_pos++;
    return sizeof(packet_header_t) + 1;
}
static void gone(uint32_t w) { conn[w] = 0; got[w] = 0; first[w] = next[w] = 0; }
static uint32_t receive(uint32_t w, uint32_t pid)     // how many packets become ready
{
    uint32_t n = 0;
    if (conn[w] != 2 || !pid) return 0;
    if (!first[w]) first[w] = next[w] = pid;
    if (pid < next[w] || (got[w] >> pid & 1)) return 0;
    got[w] |= 1u << pid;
    while (got[w] >> next[w] & 1) {
        ready[nready].w = w; ready[nready].slot = slot[w]; ready[nready].pid = next[w];
        nready++; next[w]++; n++;
    }
    return n;
}
static void joined(void)
{
    uint32_t s, w, free = NPUB;
    if (joining < NPUB && active) {
        for (s = 0; s < NPUB && free == NPUB; ++s) {
            for (w = 0; w < NPUB && !(conn[w] && slot[w] == s); ++w);
            if (w == NPUB && vp_poll_on[VP_SUB + s]) free = s;
        }
        VP_ASSERT(free < NPUB, "an announced publisher is connected to");
        VP_ASSUME(free < NPUB);
        conn[joining] = 1;
        slot[joining] = free;
    }
    joining = NPUB;
}
static uint32_t arrivals(uint32_t end)     // goes on until packets become ready
{
    uint32_t n = 0;
    while (in_at < end && !n) {
        if (!active && !by_tcp) { in_at = in_n; break; }
        n = receive(in_w[in_at], in_pid[in_at]);
        in_at++;
    }
    return n;
}
// ---- what the application does, in callbacks and outside ----
static void take(void)
{
    sub_packet_t* p = rmc_sub_get_next_dispatch_ready(sub);
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == nready - taken, "ready packets are counted");
    VP_ASSERT(!p == (taken == nready), "what is ready can be taken");
    if (!p) return;
    VP_ASSERT(rmc_sub_packet_index(p) == ready[taken].slot && p->pid == ready[taken].pid && rmc_sub_packet_payload_len(p) == 1, "packets are taken in order");
    VP_ASSERT(((uint8_t*) rmc_sub_packet_payload(p))[0] == 16 * ready[taken].w + ready[taken].pid, "packets are taken intact");
    VP_ASSERT(rmc_sub_packet_dispatched(sub, p) == 0, "a packet can be taken");
    taken++;
}
static void message(uint32_t w)
{
    int res = rmc_sub_write_control_message_by_node_id(sub, 5 + w, "m", 1);
    VP_ASSERT((res == 0) == (conn[w] == 2), "messages are accepted for connected publishers");
    if (!res) VP_ASSERT(vp_poll_act[VP_SUB + slot[w]] & RMC_POLLWRITE, "a message waits to be sent");
}
static uint32_t idle(void)     // a connection index not in use
{
    uint32_t s, w;
    for (s = 0; s < NPUB; ++s) {
        for (w = 0; w < NPUB && !(conn[w] && slot[w] == s); ++w);
        if (w == NPUB) break;
    }
    return s;
}
static uint32_t conns(void)
{
    uint32_t w, n = 0;
    for (w = 0; w < NPUB; ++w) n += conn[w] != 0;
    return n;
}
static void leave(uint32_t w)
{
    VP_ASSERT((rmc_sub_close_connection(sub, conn[w] ? slot[w] : idle()) == 0) == (conn[w] != 0), "a connection can be closed, once");
    gone(w);
}
static void stop(void)
{
    uint32_t w;
    if (!conns()) return;      // takes long to explore; C16 has it
    active = 0;
    taken = nready;
    for (w = 0; w < NPUB; ++w) gone(w);
    VP_ASSERT(rmc_sub_deactivate_context(sub) == 0, "deactivation succeeds");
}
static uint32_t some(void) { return NPUB > 1 ? vp_pick(0, NPUB - 1) : 0; }
static void act(void)
{
    uint32_t o;
    if (!budget) return;
    o = vp_pick(0, 6);
    if (!o) return;
    budget--;
    switch (o) {
    case 1: take(); break;
    case 2: while (taken < nready) take(); break;
    case 3: message(some()); break;
    case 4: leave(some()); break;
    case 5: stop(); break;
    case 6: VP_ASSERT(rmc_sub_timeout_process(sub) == 0, "timeouts can be processed"); break;
    }
}
// ---- callbacks ----
static void on_ready(rmc_sub_context_t* c)
{
    joined();
    VP_ASSERT(c == sub && arrivals(in_n), "the callback comes when packets have become ready");
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == nready - taken, "ready packets are counted");
    act();
}
static uint8_t on_announce(rmc_sub_context_t* c, uint32_t ip, in_port_t port, rmc_node_id_t node, void* p, payload_len_t len)
{
    uint32_t w = node - 5;
    joined();
    while (in_at < in_pos - 1) VP_ASSERT(!arrivals(in_pos - 1), "the callback comes when packets have become ready");
    VP_ASSERT(c == sub && w < NPUB && !conn[w], "announcements of others than we know are reported");
    VP_ASSERT(in_at < in_n && in_w[in_at] == w && !in_pid[in_at], "announcements are reported once");
    VP_ASSERT(len == 1 && ((uint8_t*) p)[0] == 16 * w, "announcements are intact");
    in_at++;
    joining = w;
    act();
    if (!vp_flag()) { joining = NPUB; return 0; }
    return 1;
}
static void on_complete(rmc_sub_context_t* c, uint32_t ip, in_port_t port, rmc_node_id_t node)
{
    uint32_t w = node - 5;
    VP_ASSERT(c == sub && w == completing && conn[w] == 1 && ip == 0x0a000001 + w && port == 2000, "a completed connection is reported");
    conn[w] = 2;
    completing = NPUB;
    act();
}
// ---- events ----
static void event(void)
{
    uint32_t o = vp_pick(0, 6), w, i, n, fd;
    uint8_t op;
    int res;
    switch (o) {
    case 0:     // datagrams: announcements or packets, of publishers known or not
    case 1:     // resends
        w = o ? some() : 0;
        if (o ? conn[w] != 2 : !active) break;
        by_tcp = o; in_n = NA; in_at = in_pos = 0;
        if (o) { fd = vp_poll_fd[VP_SUB + slot[w]]; vp_rx[fd].len = vp_rx[fd].pos = 0; }
        for (i = 0; i < NA; ++i) {
            if (!o) w = some();
            n = vp_pick(o ? 1 : 0, 3);
            in_w[i] = w; in_pid[i] = n;
            vp_packet(&in[i], n, 5 + w, 0x0a000001 + w, 2000, 1);
            in[i].p[0] = 16 * w + n;
            if (o) {
                uint8_t c = RMC_CMD_PACKET;
                vp_stream_put(&vp_rx[fd], &c, 1);
                vp_stream_put(&vp_rx[fd], &in[i], sizeof(packet_header_t) + 1);
            }
        }
        joining = NPUB;
        if (o) {
            res = rmc_sub_read(sub, slot[w], &op);
            VP_ASSERT(res == 0, "reading succeeds");
        } else
            while (active && in_pos < in_n) {
                fd = in_pos;
                res = rmc_sub_read(sub, RMC_MULTICAST_INDEX, &op);
                VP_ASSERT(res == 0 || !active, "reading succeeds");
                VP_ASSERT(in_pos > fd || !active, "every read takes a datagram");
            }
        while (in_at < in_n) VP_ASSERT(!arrivals(in_n), "the callback comes when packets have become ready");
        joined();
        in_n = in_at = in_pos = 0;
        break;
    case 2:     // a connection is completed
        w = some();
        if (conn[w] != 1) break;
        completing = w;
        VP_ASSERT(rmc_sub_write(sub, slot[w], &op) == 0 && completing == NPUB, "completion succeeds");
        break;
    case 3: vp_now += RMC_DEFAULT_ACK_TIMEOUT; VP_ASSERT(rmc_sub_timeout_process(sub) == 0, "timeouts are processed"); break;
    case 4: take(); break;
    case 5:     // the publisher ends the connection
        w = some();
        if (conn[w] != 2) break;
        fd = vp_poll_fd[VP_SUB + slot[w]];
        vp_rx[fd].len = vp_rx[fd].pos = 0;
        VP_ASSERT(rmc_sub_read(sub, slot[w], &op) == 0, "the end of a connection is found out");
        gone(w);
        break;
    case 6: if (active) stop(); else { VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds"); active = 1; } break;
    }
}
static void compare(void)
{
    uint32_t w, n = conns(), on = 0;
    for (w = 0; w < NPUB; ++w) {
        VP_ASSERT(!conn[w] || vp_poll_on[VP_SUB + slot[w]], "exactly the open connections are watched");
        on += vp_poll_on[VP_SUB + w] != 0;
    }
    VP_ASSERT(on == n, "exactly the open connections are watched");
    VP_ASSERT(rmc_sub_get_publisher_count(sub) == n && vp_fd_count == n + active && rmc_sub_get_socket_count(sub) == n + active, "connections and sockets are counted");
    VP_ASSERT(!vp_poll_on[VP_SUB + VP_SLOT_MCAST] == !active, "an active context watches its socket");
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == nready - taken, "ready packets are counted");
}
void harness(void)
{
    uint32_t k;
    sub = vp_sub_new(9, NPUB);
    VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds");
    active = 1; completing = NPUB;
    for (k = 0; k < CONN; ++k) {
        in_n = 1; in_pos = 0;
        vp_packet(&in[0], 0, 5 + k, 0x0a000001 + k, 2000, 1);
        vp_sub_connect(sub, k, 5 + k, 0x0a000001 + k, 2000);
        conn[k] = 2; slot[k] = k;
    }
    in_n = in_pos = 0;
    rmc_sub_set_packet_ready_callback(sub, on_ready);
    rmc_sub_set_announce_callback(sub, on_announce);
    rmc_sub_set_subscription_complete_callback(sub, on_complete);
    budget = B;
    for (k = 0; k < K; ++k) { event(); compare(); }
    VP_REACH(!budget && active && conn[0] == 2, "everything still up after actions in callbacks");
    VP_REACH(!budget && !active, "stopped in a callback");
    budget = 0;
    while (taken < nready) take();
    if (conns()) {
        rmc_sub_delete_context(sub);
        VP_ASSERT(!vp_fd_count && !vp_heap_live, "everything is released at the end");
    }
    for (k = 0; k < VP_NPAY; ++k)
        if (k < vp_pay_next) VP_ASSERT(vp_pay_frees[k] == 1, "every payload is released once");
    VP_WITNESS("end");
}
