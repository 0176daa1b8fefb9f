// C23: calls that name nothing, in every state of the table, with a look at everything around before and after.
// Table of 3: slot 0 connected, slot 1 closed after use, slot 2 never used (subscriber: being connected, if CONNECTING).
#ifndef CALLS
#define CALLS 2
#endif
#define VP_NPAY 12
#define VP_PAYLEN 8
#define VP_MAXCONN 3
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#define VP_STREAM 256
#define VP_NDGRAM 8
#include "vp_world.h"
static rmc_pub_context_t* pub;
static rmc_sub_context_t* sub;
static uint32_t calls;   // callbacks made
static uint8_t active, connecting;
static uint8_t on_connect(rmc_pub_context_t* c, uint32_t a, uint16_t p) { calls++; return 1; }
static void on_disconnect(rmc_pub_context_t* c, uint32_t a, uint16_t p) { calls++; }
static void on_control(rmc_pub_context_t* c, uint32_t a, uint16_t p, rmc_node_id_t n, void* d, payload_len_t l) { calls++; }
static uint8_t on_announce_p(rmc_pub_context_t* c, void* p, payload_len_t m, payload_len_t* l) { calls++; return 0; }
static uint8_t on_announce_s(rmc_sub_context_t* c, uint32_t i, in_port_t p, rmc_node_id_t n, void* d, payload_len_t l) { calls++; return 1; }
static void on_ready(rmc_sub_context_t* c) { calls++; }
static void on_complete(rmc_sub_context_t* c, uint32_t i, in_port_t p, rmc_node_id_t n) { calls++; }
typedef struct {
    uint64_t poll, calls, fds, heap, out, pay, pend, count, ready;
    int64_t due;
    uint64_t act[2 * VP_NSLOT];
} look_t;
static void look(look_t* l)
{
    uint32_t i, q = 0, n = 0, a = 0;
    l->poll = vp_poll_adds * 10000 + vp_poll_mods * 100 + vp_poll_removes;
    l->calls = calls; l->fds = vp_fd_count; l->heap = vp_heap_live; l->out = vp_out_n;
    l->pay = 0;
    for (i = 0; i < VP_NPAY; ++i) l->pay += vp_pay_frees[i] * 100 + vp_pay_out[i];
    for (i = 0; i < 2 * VP_NSLOT; ++i) l->act[i] = vp_poll_on[i] ? 16 + vp_poll_act[i] : 0;
    if (pub) {
        l->pend = rmc_pub_context_get_pending(pub, &q, &n, &a);
        l->pend += q * 1000000 + n * 1000 + a * 200;
        l->count = rmc_pub_get_subscriber_count(pub) * 100 + rmc_pub_get_socket_count(pub) * 10 + rmc_pub_traffic_suspended(pub);
        l->ready = rmc_pub_queue_length(pub);
        rmc_pub_timeout_get_next(pub, &l->due);
    } else {
        l->count = rmc_sub_get_publisher_count(sub) * 100 + rmc_sub_get_socket_count(sub) * 10;
        l->ready = rmc_sub_get_dispatch_ready_count(sub);
        l->pend = 0;
        rmc_sub_timeout_get_next(sub, &l->due);
    }
}
static look_t before, after;
static void same(void)
{
    uint32_t i;
    look(&after);
    VP_ASSERT(before.poll == after.poll && before.calls == after.calls, "no callback runs");
    VP_ASSERT(before.fds == after.fds && before.heap == after.heap, "no descriptor or memory is taken or given up");
    VP_ASSERT(before.out == after.out && before.pay == after.pay, "nothing is sent or released");
    VP_ASSERT(before.pend == after.pend && before.count == after.count && before.ready == after.ready && before.due == after.due, "the context is as before");
    for (i = 0; i < 2 * VP_NSLOT; ++i) VP_ASSERT(before.act[i] == after.act[i], "connections are watched as before");
}
static rmc_index_t nobody(int mcast)   // any index that names nothing
{
    rmc_index_t i = vp_u16();
    VP_ASSUME(i != 0);
    if (connecting) VP_ASSUME(i != 2);
    if (!mcast) VP_ASSUME(i != RMC_MULTICAST_INDEX);
    return i;
}
static uint8_t op, byte[4];
static uint8_t* opp(void) { op = 0xee; return vp_flag() ? &op : 0; }
static uint32_t u32a, u32b, u32c;
static usec_timestamp_t ts;
static user_data_t ud;
#define REFUSED(c) VP_ASSERT((c) != 0, "the call is refused")
#define NULLSAFE(c) VP_ASSERT((c) == 0, "a query without context gives nothing")
static void misuse_pub(void)
{
    rmc_index_t i;
    uint8_t* o;
    rmc_pub_context_t* c = 0;
    switch (vp_pick(0, 8)) {
    case 0: i = nobody(!active); if (active) VP_ASSUME(i != RMC_LISTEN_INDEX); o = opp();
            REFUSED(rmc_pub_read(pub, i, o));
            if (o) VP_ASSERT(op == RMC_ERROR, "the result says error");
            break;
    case 1: i = nobody(0); o = opp();
            REFUSED(rmc_pub_write(pub, i, o));
            if (o) VP_ASSERT(op == RMC_ERROR, "the result says error");
            break;
    case 2: i = nobody(1); REFUSED(rmc_pub_close_connection(pub, i)); break;
    case 3: REFUSED(rmc_pub_queue_packet(pub, 0, vp_u16(), 0)); break;
    case 4: u32a = vp_u32(); u32b = vp_u32(); VP_ASSUME(u32a < u32b);
            REFUSED(rmc_pub_throttling(pub, u32a, u32b)); break;
    case 5: REFUSED(rmc_pub_timeout_get_next(pub, 0)); break;
    case 6: i = vp_u16(); o = opp();
            switch (vp_pick(0, 7)) {
            case 0: REFUSED(rmc_pub_read(c, i, o)); break;
            case 1: REFUSED(rmc_pub_write(c, i, o)); break;
            case 2: REFUSED(rmc_pub_close_connection(c, i)); break;
            case 3: REFUSED(rmc_pub_queue_packet(c, byte, 1, 0)); break;
            case 4: REFUSED(rmc_pub_timeout_process(c)); break;
            case 5: REFUSED(rmc_pub_timeout_get_next(c, &ts)); break;
            case 6: REFUSED(rmc_pub_context_get_pending(c, &u32a, &u32b, &u32c)); break;
            case 7: REFUSED(rmc_pub_throttling(c, 2, 1)); break;
            }
            break;
    case 7: switch (vp_pick(0, 9)) {
            case 0: REFUSED(rmc_pub_activate_context(c)); break;
            case 1: REFUSED(rmc_pub_deactivate_context(c)); break;
            case 2: REFUSED(rmc_pub_delete_context(c)); break;
            case 3: REFUSED(rmc_pub_set_announce_interval(c, 5)); break;
            case 4: REFUSED(rmc_pub_set_announce_callback(c, on_announce_p)); break;
            case 5: REFUSED(rmc_pub_set_subscriber_connect_callback(c, on_connect)); REFUSED(rmc_pub_set_subscriber_disconnect_callback(c, on_disconnect)); break;
            case 6: REFUSED(rmc_pub_set_control_message_callback(c, on_control)); break;
            case 7: REFUSED(rmc_pub_set_user_data(c, ud)); REFUSED(rmc_pub_set_multicast_ttl(c, 1)); REFUSED(rmc_pub_traffic_suspended(c)); break;
            case 8: NULLSAFE(rmc_pub_user_data(c).u64); NULLSAFE(rmc_pub_node_id(c)); NULLSAFE(rmc_pub_queue_length(c));
                    NULLSAFE(rmc_pub_get_max_subscriber_count(c)); NULLSAFE(rmc_pub_get_subscriber_count(c)); NULLSAFE(rmc_pub_get_socket_count(c)); break;
            case 9: if (active) REFUSED(rmc_pub_activate_context(pub)); else REFUSED(rmc_pub_set_multicast_ttl(pub, 1)); break;
            }
            break;
    case 8: REFUSED(rmc_pub_init_context(vp_flag() ? &c : 0, 1, 0, 1, "0", "B", 1, ud, 0, 0, 0, 1, 0));
            REFUSED(rmc_pub_init_context(0, 1, "A", 1, "0", "B", 1, ud, 0, 0, 0, 1, 0)); break;
    }
}
static void misuse_sub(void)
{
    rmc_index_t i;
    uint8_t* o;
    rmc_sub_context_t* c = 0;
    sub_packet_t stray;
    switch (vp_pick(0, 9)) {
    case 0: i = vp_u16(); VP_ASSUME(i != 0); if (active) VP_ASSUME(i != RMC_MULTICAST_INDEX); o = opp();   // not those being connected either
            REFUSED(rmc_sub_read(sub, i, o));
            if (o) VP_ASSERT(op == RMC_ERROR, "the result says error");
            break;
    case 1: i = nobody(1); o = opp();
            REFUSED(rmc_sub_write(sub, i, o));
            if (o) VP_ASSERT(op == RMC_ERROR, "the result says error");
            break;
    case 2: i = nobody(1); REFUSED(rmc_sub_close_connection(sub, i)); break;
    case 3: u32a = vp_u32(); VP_ASSUME(u32a != 5); VP_ASSUME(u32a != 0 || connecting); REFUSED(rmc_sub_write_control_message_by_node_id(sub, u32a, byte, 1)); break;
    case 4: u32a = vp_u32(); u32b = vp_u16(); VP_ASSUME(u32a != 0x0a000005 || u32b != 2005);
            REFUSED(rmc_sub_write_control_message_by_address(sub, u32a, u32b, byte, 1)); break;
    case 5: REFUSED(rmc_sub_write_control_message_by_node_id(sub, 5, 0, 1)); REFUSED(rmc_sub_write_control_message_by_node_id(sub, 5, byte, 0));
            REFUSED(rmc_sub_write_control_message_by_address(sub, 0x0a000005, 2005, 0, 1)); REFUSED(rmc_sub_write_control_message_by_address(sub, 0x0a000005, 2005, byte, 0)); break;
    case 6: REFUSED(rmc_sub_timeout_get_next(sub, 0)); REFUSED(rmc_sub_packet_dispatched(sub, 0)); REFUSED(rmc_sub_packet_dispatched_keep_payload(sub, 0));
            REFUSED(rmc_sub_packet_dispatched(sub, &stray)); REFUSED(rmc_sub_packet_dispatched_keep_payload(sub, &stray)); break;
    case 7: i = vp_u16(); o = opp();
            switch (vp_pick(0, 7)) {
            case 0: REFUSED(rmc_sub_read(c, i, o)); break;
            case 1: REFUSED(rmc_sub_write(c, i, o)); break;
            case 2: REFUSED(rmc_sub_close_connection(c, i)); break;
            case 3: REFUSED(rmc_sub_timeout_process(c)); REFUSED(rmc_sub_timeout_get_next(c, &ts)); break;
            case 4: REFUSED(rmc_sub_write_control_message_by_node_id(c, 5, byte, 1)); REFUSED(rmc_sub_write_control_message_by_address(c, 0x0a000005, 2005, byte, 1)); break;
            case 5: REFUSED(rmc_sub_packet_dispatched(c, &stray)); REFUSED(rmc_sub_packet_dispatched_keep_payload(c, &stray)); break;
            case 6: NULLSAFE(rmc_sub_get_dispatch_ready_count(c)); VP_ASSERT(!rmc_sub_get_next_dispatch_ready(c), "a query without context gives nothing");
                    NULLSAFE(rmc_sub_user_data(c).u64); NULLSAFE(rmc_sub_node_id(c)); NULLSAFE(rmc_sub_get_max_publisher_count(c));
                    NULLSAFE(rmc_sub_get_publisher_count(c)); NULLSAFE(rmc_sub_get_socket_count(c)); break;
            case 7: VP_ASSERT(!rmc_sub_packet_payload(0) && !rmc_sub_packet_payload_len(0), "a query without packet gives nothing"); break;
            }
            break;
    case 8: switch (vp_pick(0, 6)) {
            case 0: REFUSED(rmc_sub_activate_context(c)); break;
            case 1: REFUSED(rmc_sub_deactivate_context(c)); break;
            case 2: REFUSED(rmc_sub_delete_context(c)); break;
            case 3: REFUSED(rmc_sub_set_announce_callback(c, on_announce_s)); break;
            case 4: REFUSED(rmc_sub_set_packet_ready_callback(c, on_ready)); break;
            case 5: REFUSED(rmc_sub_set_subscription_complete_callback(c, on_complete)); REFUSED(rmc_sub_set_user_data(c, ud)); break;
            case 6: if (active) REFUSED(rmc_sub_activate_context(sub)); break;
            }
            break;
    case 9: REFUSED(rmc_sub_init_context(vp_flag() ? &c : 0, 1, 0, 1, "0", ud, 0, 0, 0, 1, 0, 0));
            REFUSED(rmc_sub_init_context(0, 1, "A", 1, "0", ud, 0, 0, 0, 1, 0, 0)); break;
    }
}
static void go_on_pub(void)
{
    struct { uint8_t c; uint64_t a, b; } __attribute__((packed)) m = { RMC_CMD_ACK_INTERVAL, 1, 1 };
    int fd = vp_poll_fd[0];
    VP_ASSERT(vp_pub_queue(pub, 2, 1) == 0 && rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op) == 0 && vp_out_n == 3, "packets are sent as before");
    vp_stream_put(&vp_rx[fd], &m, 17);
    VP_ASSERT(rmc_pub_read(pub, 0, &op) == 0 && op == RMC_READ_TCP && vp_pay_frees[0] == 1, "an acknowledgement counts as before");
    vp_now += RMC_DEFAULT_PACKET_TIMEOUT;
    VP_ASSERT(rmc_pub_timeout_process(pub) == 0 && rmc_pub_write(pub, 0, &op) == 0 && op == RMC_WRITE_TCP, "what is due is resent as before");
    VP_ASSERT(vp_tx[fd].len == 44 && vp_tx[fd].b[1] == 2 && vp_tx[fd].b[23] == 3, "the packets not acknowledged are resent");
    vp_pub_accept(pub, 7, 7);
    VP_ASSERT(vp_poll_on[1] && rmc_pub_get_subscriber_count(pub) == 2, "the free slot is used again");
    VP_ASSERT(rmc_pub_close_connection(pub, 0) == 0 && !vp_poll_on[0], "a connection can be closed");
}
static void go_on_sub(void)
{
    vp_packet_t k;
    int fd = vp_poll_fd[VP_SUB];
    k.p[0] = 9;
    vp_packet(&k, 2, 5, 0x0a000005, 2005, 1);
    vp_sub_datagram(sub, &k, 21);
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == 2, "packets are delivered as before");
    vp_now += RMC_DEFAULT_ACK_TIMEOUT;
    VP_ASSERT(rmc_sub_timeout_process(sub) == 0 && rmc_sub_write(sub, 0, &op) == 0 && op == RMC_WRITE_TCP, "acknowledgements are sent as before");
    VP_ASSERT(vp_tx[fd].len == 17 && vp_tx[fd].b[1] == 1 && vp_tx[fd].b[9] == 2, "both packets are acknowledged");
    if (connecting) VP_ASSERT(rmc_sub_write(sub, 2, &op) == 0 && op == RMC_COMPLETE_CONNECTION, "the other connection can be completed");
    VP_ASSERT(rmc_sub_close_connection(sub, 0) == 0 && !vp_poll_on[VP_SUB], "a connection can be closed");
}
void harness(void)
{
    uint32_t k;
    vp_packet_t p;
    active = vp_flag();
#if SIDE
    pub = vp_pub_new(9, 3);
    rmc_pub_set_subscriber_connect_callback(pub, on_connect);
    rmc_pub_set_subscriber_disconnect_callback(pub, on_disconnect);
    rmc_pub_set_control_message_callback(pub, on_control);
    rmc_pub_set_announce_callback(pub, on_announce_p);
    VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds");
    vp_pub_accept(pub, 1, 1); vp_pub_accept(pub, 2, 2);
    rmc_pub_close_connection(pub, 1);
    vp_pub_queue(pub, 0, 1); rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op);
    vp_pub_queue(pub, 1, 1);
    if (!active) rmc_pub_deactivate_context(pub);
#else
    sub = vp_sub_new(9, 3);
    connecting = vp_flag();
    rmc_sub_set_packet_ready_callback(sub, on_ready);
    rmc_sub_set_announce_callback(sub, on_announce_s);
    rmc_sub_set_subscription_complete_callback(sub, on_complete);
    VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds");
    vp_sub_connect(sub, 0, 5, 0x0a000005, 2005); vp_sub_connect(sub, 1, 6, 0x0a000006, 2006);
    if (connecting) { vp_packet(&p, 0, 7, 0x0a000007, 2007, 0); vp_sub_datagram(sub, &p, 20); }
    rmc_sub_close_connection(sub, 1);
    p.p[0] = 8;
    vp_packet(&p, 1, 5, 0x0a000005, 2005, 1);
    vp_sub_datagram(sub, &p, 21);
    if (!active) { rmc_sub_deactivate_context(sub); connecting = 0; }
#endif
    look(&before);
    for (k = 0; k < CALLS; ++k) {
#if SIDE
        misuse_pub();
#else
        misuse_sub();
#endif
        same();
    }
#if SIDE
    if (active) go_on_pub();
#else
    if (active) go_on_sub();
#endif
    VP_REACH(active, "active");
    VP_WITNESS("end");
}
