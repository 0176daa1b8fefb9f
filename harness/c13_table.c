// C13: the connection table through its public operations. SIDE 0: a subscriber's connections to publishers, 1: a publisher's to
// subscribers. The peers' addresses, ports and node ids are symbolic; the slots the library picks are learnt from the poll callback.
#ifndef K
#define K 4
#endif
#ifndef SIZE
#define SIZE 2
#endif
#ifndef NPEER
#define NPEER 3
#endif
#ifndef PRE
#define PRE 0       // peers connected beforehand
#endif
#define VP_NPAY 2
#define VP_NDGRAM 2
#define VP_MAXCONN SIZE
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#define VP_OWN_CONNECT
#include <stdint.h>
#include "vp.h"
static int connect_errno;
static uint32_t connects;
#include "vp_world.h"
#define S0 (SIDE ? 0 : VP_SUB)
static uint32_t addr[NPEER]; static uint16_t port[NPEER]; static rmc_node_id_t node[NPEER];
static int at[SIZE];         // peer in this slot, -1: none
static uint8_t up[SIZE];     // connection complete
static int connecting_to = -1;
static rmc_pub_context_t* pub;
static rmc_sub_context_t* sub;
static rmc_connection_vector_t* vec;

int vp_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    VP_ASSERT(vp_fd_is_open(fd), "connects an open descriptor");
    VP_ASSERT(connecting_to >= 0 && ntohl(in->sin_addr.s_addr) == addr[connecting_to] && ntohs(in->sin_port) == port[connecting_to],
              "connects to the announced address");
    connects++;
    errno = connect_errno ? connect_errno : EINPROGRESS;
    return -1;
}

static int come = -1, gone = -1, refuse;
static uint32_t comes, goes;
static uint8_t on_connect(rmc_pub_context_t* c, uint32_t a, uint16_t p)
{
    VP_ASSERT(c == pub && come >= 0 && a == addr[come] && p == port[come], "the subscriber's true address and port are passed");
    comes++;
    return !refuse;
}
static void on_disconnect(rmc_pub_context_t* c, uint32_t a, uint16_t p)
{
    VP_ASSERT(c == pub && gone >= 0 && a == addr[gone] && p == port[gone], "the lost subscriber's true address and port are passed");
    goes++;
}
static uint8_t on_announce(rmc_sub_context_t* c, uint32_t a, uint16_t p, rmc_node_id_t n, void* pl, payload_len_t len) { return 1; }

static void check(int last)
{
    uint32_t i, n = 0;
    rmc_connection_t* c;
    for (i = 0; i < SIZE; ++i) {
        VP_ASSERT(vp_poll_on[S0 + i] == (at[i] >= 0), "a slot is watched while it is in use");
        c = rmc_conn_find_by_index(vec, i);
        VP_ASSERT(!c == (at[i] < 0), "an index finds an open connection or nothing");
        if (at[i] < 0) continue;
        n++;
        VP_ASSERT(c->connection_index == i && c->descriptor == vp_poll_fd[S0 + i], "an index finds its own connection");
        VP_ASSERT(c->remote_address == addr[at[i]] && c->remote_port == port[at[i]], "a connection keeps its peer's address");
        VP_ASSERT(vp_fd_is_open(c->descriptor), "an open connection has an open descriptor");
        VP_ASSERT(rmc_conn_find_by_address(vec, addr[at[i]], port[at[i]]) == c, "an address finds its connection");
        if (!SIDE) {
            VP_ASSERT(c->node_id == node[at[i]], "a connection keeps its peer's node id");
            VP_ASSERT(c->mode == (up[i] ? RMC_CONNECTION_MODE_CONNECTED : RMC_CONNECTION_MODE_CONNECTING), "the connection's state is true");
        }
    }
    VP_ASSERT(!rmc_conn_find_by_index(vec, SIZE) && !rmc_conn_find_by_index(vec, RMC_NIL_INDEX), "no connection beyond the table");
    if (!SIDE) {
        VP_ASSERT(rmc_sub_get_publisher_count(sub) == n, "publishers are counted");
        VP_ASSERT(rmc_sub_get_max_publisher_count(sub) == SIZE, "the size of the table is reported");
        VP_ASSERT(rmc_sub_get_socket_count(sub) == n + 1 && vp_fd_count == n + 1, "sockets are counted");
    } else {
        VP_ASSERT(rmc_pub_get_subscriber_count(pub) == n, "subscribers are counted");
        VP_ASSERT(rmc_pub_get_max_subscriber_count(pub) == SIZE, "the size of the table is reported");
        VP_ASSERT(rmc_pub_get_socket_count(pub) == n + 2 && vp_fd_count == n + 2, "sockets are counted");
    }
    if (last) {   // any key at all
        uint32_t a = vp_u32(), known = 0, named = 0;
        uint16_t p = vp_u16();
        rmc_node_id_t id = vp_u32();
        for (i = 0; i < SIZE; ++i)
            if (at[i] >= 0) {
                known |= (a == addr[at[i]]) & (p == port[at[i]]);
                named |= id == node[at[i]];
            }
        c = rmc_conn_find_by_address(vec, a, p);
        VP_ASSERT(!c == !known, "any other address finds nothing");
        if (!SIDE) {
            c = rmc_conn_find_by_node_id(vec, id);
            VP_ASSERT(!c == !named, "any other node id finds nothing");
            if (c) VP_ASSERT(c->node_id == id && c->connection_index < SIZE && at[c->connection_index] >= 0, "a node id finds an open connection of that id");
        }
    }
}
static int slot_of(int w)
{
    int i;
    for (i = 0; i < SIZE; ++i) if (at[i] == w) return i;
    return -1;
}
static int used(void)
{
    int i, n = 0;
    for (i = 0; i < SIZE; ++i) n += at[i] >= 0;
    return n;
}
// The slot the library has just put the peer in.
static void joined(int w)
{
    int i, n = 0;
    for (i = 0; i < SIZE; ++i)
        if (at[i] < 0 && vp_poll_on[S0 + i]) { at[i] = w; up[i] = SIDE; n++; }
    VP_ASSERT(n == 1, "a new connection takes one slot that was free");
}
static uint32_t full, reused;
static void op_sub(void)
{
    uint32_t o = vp_range(0, 3), i;
    uint8_t op = 0;
    int res, was = -1;
    if (o == 0) {
        vp_packet_t k;
        int w = vp_range(0, NPEER - 1);
        connect_errno = vp_flag() ? ECONNREFUSED : 0;
        vp_packet(&k, 0, node[w], addr[w], port[w], 0);
        connects = 0;
        connecting_to = w;
        vp_sub_datagram(sub, &k, sizeof(k.h));
        connecting_to = -1;
        if (slot_of(w) >= 0) VP_ASSERT(!connects, "a publisher is connected once");
        else if (used() == SIZE) { VP_ASSERT(!connects, "a full table refuses a new connection"); full = 1; }
        else {
            VP_ASSERT(connects == 1, "one connection is opened");
            if (!connect_errno) joined(w);
        }
        return;
    }
    i = vp_range(0, SIZE);
    if (i < SIZE) was = at[i];
    if (o == 1) {
        if (was >= 0 && up[i]) return;
        vp_so_error = vp_flag() ? ECONNREFUSED : 0;
        res = rmc_sub_write(sub, i, &op);
        if (was < 0) VP_ASSERT(res, "nothing to complete");
        else if (vp_so_error) { VP_ASSERT(res, "a failed connection is reported"); at[i] = -1; reused = 1; }
        else { VP_ASSERT(!res, "a connection is completed"); up[i] = 1; }
    } else if (o == 2) {
        res = rmc_sub_close_connection(sub, i);
        VP_ASSERT(!res == (was >= 0), "open connections can be closed, others cannot");
        if (was >= 0) { at[i] = -1; reused = 1; }
    } else {
        res = rmc_sub_read(sub, i, &op);      // the peer has closed
        if (was >= 0 && up[i]) {
            VP_ASSERT(!res && op == RMC_READ_DISCONNECT, "the peer's close is reported");
            at[i] = -1;
            reused = 1;
        } else VP_ASSERT(res == ENOTCONN, "nothing is read from a connection that is not up");
    }
}
static void op_pub(void)
{
    uint32_t o = vp_range(0, 2), i;
    uint8_t op = 0;
    int res, was = -1;
    comes = goes = 0;
    if (o == 0) {
        int w = vp_range(0, NPEER - 1);
        VP_ASSUME(slot_of(w) < 0);
        refuse = vp_flag();
        vp_peer_addr = addr[w]; vp_peer_port = port[w];
        come = gone = w;
        res = rmc_pub_read(pub, RMC_LISTEN_INDEX, &op);
        if (used() == SIZE) {
            VP_ASSERT(res && !comes, "a full table refuses a new connection");
            full = 1;
        } else {
            VP_ASSERT(!res && op == RMC_READ_ACCEPT && comes == 1, "a new subscriber is accepted, and the application asked");
            if (!refuse) { joined(w); VP_ASSERT(goes == 0, "not lost"); }
            else VP_ASSERT(goes <= 1, "lost once at most");
        }
        come = gone = -1;
        return;
    }
    i = vp_range(0, SIZE);
    if (i < SIZE) was = at[i];
    gone = was;
    if (o == 1) {
        res = rmc_pub_close_connection(pub, i);
        VP_ASSERT(!res == (was >= 0), "open connections can be closed, others cannot");
    } else {
        res = rmc_pub_read(pub, i, &op);
        if (was >= 0) VP_ASSERT(!res && op == RMC_READ_DISCONNECT, "the peer's close is reported");
        else VP_ASSERT(res == ENOTCONN, "nothing is read from a connection that is not open");
    }
    VP_ASSERT(goes == (was >= 0), "the application learns of a lost subscriber, once");
    if (was >= 0) { at[i] = -1; reused = 1; }
    gone = -1;
}
void harness(void)
{
    int i, j, k;
    for (i = 0; i < SIZE; ++i) at[i] = -1;
    for (i = 0; i < NPEER; ++i) {
        addr[i] = vp_u32(); port[i] = vp_u16(); node[i] = vp_u32();
        VP_ASSUME(addr[i] != 0);
#ifdef SHARED     // one pattern of shared addresses, ports and ids: 0 and 1 one host, 0 and 2 one port, 1 and 2 one id
        if (i == 1) addr[1] = addr[0];
        if (i == 2) { port[2] = port[0]; node[2] = node[1]; }
        for (j = 0; j < i; ++j)
            VP_ASSUME(((i == 1 && j == 0) || addr[i] != addr[j]) && ((i == 2 && j == 0) || port[i] != port[j]) &&
                      ((i == 2 && j == 1) || node[i] != node[j]));
#else
        for (j = 0; j < i; ++j) VP_ASSUME(addr[i] != addr[j] || port[i] != port[j]);
#endif
    }
#if SIDE
    pub = vp_pub_new(9, SIZE);
    VP_ASSERT(rmc_pub_activate_context(pub) == 0, "activation succeeds");
    rmc_pub_set_subscriber_connect_callback(pub, on_connect);
    rmc_pub_set_subscriber_disconnect_callback(pub, on_disconnect);
    vec = &pub->conn_vec;
#else
    sub = vp_sub_new(9, SIZE);
    VP_ASSERT(rmc_sub_activate_context(sub) == 0, "activation succeeds");
    rmc_sub_set_announce_callback(sub, on_announce);
    vec = &sub->conn_vec;
#endif
    for (i = 0; i < PRE; ++i) {
#if SIDE
        come = i;
        vp_pub_accept(pub, addr[i], port[i]);
        joined(i);
        come = -1;
#else
        uint8_t op;
        vp_packet_t p;
        vp_packet(&p, 0, node[i], addr[i], port[i], 0);
        connecting_to = i;
        vp_sub_datagram(sub, &p, sizeof(p.h));
        connecting_to = -1;
        joined(i);
        if (vp_flag()) {
            j = slot_of(i);
            VP_ASSERT(rmc_sub_write(sub, j, &op) == 0, "a connection is completed");
            up[j] = 1;
        }
#endif
    }
    check(0);
    for (k = 0; k < K; ++k) {
#if SIDE
        op_pub();
#else
        op_sub();
#endif
        check(k == K - 1);
    }
    VP_REACH(full, "a full table was met");
    VP_REACH(reused && used(), "an ended connection and a present one");
    VP_WITNESS("end");
}
