// C30: what a context is before it is activated, and what is left when it is refused. SIDE 1: publisher, 0: subscriber.
#define VP_NPAY 4
#define VP_NDGRAM 6
#define VP_MAXCONN NS
#define VP_OWN_INET_ATON
#define VP_OWN_SOCKET
#define VP_OWN_SETSOCKOPT
#include <stdint.h>
uint32_t vp_peer_addr; uint16_t vp_peer_port;
#include "vp_world.h"
static uint32_t calls, frees;
static uint8_t opened;
int vp_inet_aton(const char* s, struct in_addr* out)
{
    if (s[0] == 'X') return 0;                                  // not an address
    out->s_addr = s[0] >= 'A' && s[0] <= 'C' ? htonl(vp_addr[s[0] - 'A']) : 0;
    return 1;
}
int vp_socket(int d, int type, int p) { opened = 1; return vp_fd_new((type & 15) == SOCK_DGRAM ? 1 : 2); }
int vp_setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
    VP_ASSERT(vp_fd_is_open(fd), "options are set on an open descriptor");
    return 0;
}
static user_data_t ud;
static void add(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t a) { calls++; }
static void mod(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t o, rmc_poll_action_t a) { calls++; }
static void del(user_data_t u, int fd, rmc_index_t i) { calls++; }
static void* pay_alloc(payload_len_t n, user_data_t u) { calls++; return 0; }
static void pay_free(void* p, payload_len_t n, user_data_t u)
{
    frees++;
    VP_ASSERT(p == vp_pay[0], "the payload handed back is the one queued");
}
static char* str(uint8_t k, char* good) { return k == 0 ? good : k == 1 ? "X" : (char*) 0; }
void harness(void)
{
    uint8_t g = vp_pick(0, 2), a = vp_pick(0, 2), b = SIDE ? vp_pick(0, 2) : 0, no_out = vp_pick(0, 1), op = 0xff, k;
    uint8_t bad = no_out || g != 0 || a == 1 || b == 1, changed = 0;
    rmc_node_id_t node = vp_u32();
    rmc_index_t ind = vp_u16();
    uint16_t port = vp_u16(), cport = vp_u16();
    usec_timestamp_t ts = 5;
    uint32_t heap = vp_heap_live, q = 9, s = 9, n = 9;
    user_data_t u2;
    int res;
    static char body[4];
#if SIDE
    rmc_pub_context_t* ctx = 0;
#else
    rmc_sub_context_t* ctx = 0;
#endif
    for (k = 0; k < 3; ++k) vp_addr[k] = vp_u32();
    VP_ASSUME(node != 0);                                        // zero asks for one to be made up
    ud.u64 = vp_u64();
    u2.u64 = vp_u64();
    vp_log_on();
#if SIDE
    res = rmc_pub_init_context(no_out ? 0 : &ctx, node, str(g, "A"), port, str(a, "B"), str(b, "C"), cport, ud, add, mod, del, NS, pay_free);
#else
    res = rmc_sub_init_context(no_out ? 0 : &ctx, node, str(g, "A"), port, str(a, "B"), ud, add, mod, del, NS, pay_alloc, pay_free);
#endif
    VP_ASSERT(!calls && !opened, "setting up a context opens nothing and calls nothing");
    if (bad) {
        VP_ASSERT(res == EINVAL, "a missing argument or something that is not an address is refused");
        VP_ASSERT(ctx == 0, "a refused context is not handed out");
        VP_ASSERT(vp_heap_live == heap, "a refused context leaves no memory behind");
        VP_REACH(g == 1 && !no_out, "a group that is not an address");
        VP_REACH(g == 2 && !no_out, "no group");
        VP_REACH(!no_out && g == 0 && a == 1, "an interface that is not an address");
#if SIDE
        VP_REACH(!no_out && g == 0 && a == 0 && b == 1, "a listening address that is not one");
#endif
        VP_REACH(no_out, "nowhere to put the context");
        return;
    }
    VP_ASSERT(res == 0 && ctx != 0, "a context is set up");
    VP_REACH(a == 2, "any interface");
    if (vp_pick(0, 1)) {
        changed = 1;
#if SIDE
        VP_ASSERT(rmc_pub_set_user_data(ctx, u2) == 0, "the user data can be changed");
#else
        VP_ASSERT(rmc_sub_set_user_data(ctx, u2) == 0, "the user data can be changed");
#endif
        VP_WITNESS("other user data");
    }
    else u2 = ud;
#if SIDE
    VP_ASSERT(rmc_pub_node_id(ctx) == node, "the node id is the one asked for");
    VP_ASSERT(rmc_pub_user_data(ctx).u64 == u2.u64, "the user data is the last set");
    VP_ASSERT(rmc_pub_get_max_subscriber_count(ctx) == NS, "there is room for as many connections as asked for");
    VP_ASSERT(rmc_pub_get_subscriber_count(ctx) == 0 && rmc_pub_get_socket_count(ctx) == 0, "a new context has no connections and no sockets");
    VP_ASSERT(rmc_pub_queue_length(ctx) == 0, "nothing is queued in a new context");
    VP_ASSERT(!rmc_pub_traffic_suspended(ctx), "a new context is not suspended");
    VP_ASSERT(rmc_pub_context_get_pending(ctx, &q, &s, &n) == 0 && q == 0 && s == 0 && n == 0, "nothing is pending in a new context");
    VP_ASSERT(rmc_pub_timeout_get_next(ctx, &ts) == 0 && ts == (usec_timestamp_t) -1, "a new context waits for nothing");
    VP_ASSERT(rmc_pub_timeout_process(ctx) != EINVAL, "an idle context has nothing to time out");
    k = vp_pick(0, 4);
    switch (k) {
    case 0: VP_ASSERT(rmc_pub_read(ctx, ind, &op) != 0, "a context that is not active reads nothing"); break;
    case 1: rmc_pub_write(ctx, ind, &op); break;
    case 2: VP_ASSERT(rmc_pub_close_connection(ctx, ind) != 0, "a context that is not active has nothing to close"); break;
    case 3: VP_ASSERT(rmc_pub_set_multicast_ttl(ctx, 3) == ENOTCONN, "the hop limit is that of an active context"); break;
    case 4:
        VP_ASSERT(rmc_pub_queue_packet(ctx, vp_pay[0], 1 + (port & 3), 0) == 0, "a packet can be queued before activation");
        VP_ASSERT(rmc_pub_queue_length(ctx) == 1, "a packet queued before activation is kept");
        VP_ASSERT(rmc_pub_context_get_pending(ctx, &q, &s, &n) == EBUSY && q == 1 && s == 0 && n == 0, "a packet queued before activation is pending");
        VP_WITNESS("queued before activation");
    }
    VP_ASSERT(!calls && !opened && !frees, "a context that is not active touches nothing");
    res = rmc_pub_delete_context(ctx);
    VP_ASSERT(frees == (k == 4), "payloads kept by a context are handed back when it goes");
#else
    VP_ASSERT(rmc_sub_node_id(ctx) == node, "the node id is the one asked for");
    VP_ASSERT(rmc_sub_user_data(ctx).u64 == u2.u64, "the user data is the last set");
    VP_ASSERT(rmc_sub_get_max_publisher_count(ctx) == NS, "there is room for as many connections as asked for");
    VP_ASSERT(rmc_sub_get_publisher_count(ctx) == 0 && rmc_sub_get_socket_count(ctx) == 0, "a new context has no connections and no sockets");
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(ctx) == 0 && rmc_sub_get_next_dispatch_ready(ctx) == 0, "nothing is ready in a new context");
    VP_ASSERT(rmc_sub_timeout_get_next(ctx, &ts) == 0 && ts == (usec_timestamp_t) -1, "a new context waits for nothing");
    VP_ASSERT(rmc_sub_timeout_process(ctx) != EINVAL, "an idle context has nothing to time out");
    k = vp_pick(0, 4);
    switch (k) {
    case 0: VP_ASSERT(rmc_sub_read(ctx, ind, &op) != 0, "a context that is not active reads nothing"); break;
    case 1: VP_ASSERT(rmc_sub_write(ctx, ind, &op) != 0, "a context that is not active sends nothing"); break;
    case 2: VP_ASSERT(rmc_sub_close_connection(ctx, ind) != 0, "a context that is not active has nothing to close"); break;
    case 3: VP_ASSERT(rmc_sub_write_control_message_by_node_id(ctx, node, body, 4) == ENOTCONN, "there is nobody to send a message to"); break;
    case 4: VP_ASSERT(rmc_sub_write_control_message_by_address(ctx, vp_addr[0], port, body, 4) == ENOTCONN, "there is nobody to send a message to"); break;
    }
    VP_ASSERT(!calls && !opened && !frees, "a context that is not active touches nothing");
    res = rmc_sub_delete_context(ctx);
    VP_ASSERT(!frees, "there are no payloads to hand back");
#endif
    VP_ASSERT(res == 0, "a context that was never active can be deleted");
    VP_ASSERT(!calls, "deleting it calls nothing");
    VP_REACH(changed && k == 2, "deleted after a refused close");
}
