// C24: any history of K operations in which up to F system calls fail, with any error number. SIDE 1: publisher, 0: subscriber.
#ifndef K
#define K 2
#endif
#ifndef F
#define F 2
#endif
#ifndef CONN
#define CONN 1      // connections beforehand
#endif
#ifndef OPMAX
#define OPMAX 5
#endif
#define NS 2
#define VP_NPAY (4 * K + 8)
#define VP_NDGRAM (K + 6)
#define VP_MAXCONN NS
#define VP_MAXFD (10 + 3 * K)
#define VP_NSTREAM VP_MAXFD
#define VP_STREAM (64 * (K + 2))
#define VP_OWN_SOCKET
#define VP_OWN_SETSOCKOPT
#define VP_OWN_GETSOCKOPT
#define VP_OWN_FCNTL
#define VP_OWN_BIND
#define VP_OWN_LISTEN
#define VP_OWN_GETSOCKNAME
#define VP_OWN_CONNECT
#define VP_OWN_ACCEPT
#define VP_OWN_SHUTDOWN
#define VP_OWN_CLOSE
#define VP_OWN_RECVFROM2
#include "vp.h"
#include <errno.h>
static uint32_t at_once, budget, failed, cleanup_failed;
static int first_errno;
static int fails_as(int is_cleanup, int except)
{
    uint32_t e;
    if (!budget || !vp_flag()) return 0;
    budget--;
    e = vp_u8();
    VP_ASSUME(e > 0 && e < 134 && (int) e != except);
    if (is_cleanup) cleanup_failed++;
    else if (!failed++) first_errno = e;
    errno = e;
    return 1;
}
static int fails(void) { return fails_as(0, 0); }
#define VP_SEND_ERRNO() (fails() ? errno : 0)
uint32_t vp_peer_addr; uint16_t vp_peer_port;
#define vp_readv vp_readv_ok
#define vp_writev vp_writev_ok
#include "vp_world.h"
#undef vp_readv
#undef vp_writev
ssize_t vp_readv(int fd, const struct iovec* iov, int cnt) { return fails() ? -1 : vp_readv_ok(fd, iov, cnt); }
ssize_t vp_writev(int fd, const struct iovec* iov, int cnt) { return fails() ? -1 : vp_writev_ok(fd, iov, cnt); }

int vp_socket(int d, int type, int p) { return fails() ? -1 : vp_fd_new((type & 15) == SOCK_DGRAM ? 1 : 2); }
int vp_setsockopt(int fd, int level, int name, const void* v, socklen_t l) { VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used"); return fails() ? -1 : 0; }
int vp_getsockopt(int fd, int level, int name, void* v, socklen_t* l)
{
    VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used");
    if (fails()) return -1;
    *(int*) v = fails() ? errno : 0;
    return 0;
}
int vp_fcntl(int fd, int cmd, ...) { VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used"); return fails() ? -1 : 0; }
int vp_bind(int fd, const struct sockaddr* a, socklen_t l) { VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used"); return fails() ? -1 : 0; }
int vp_listen(int fd, int b) { VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used"); return fails() ? -1 : 0; }
int vp_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used");
    if (fails()) return -1;
    ((struct sockaddr_in*) a)->sin_port = htons(4711);
    return 0;
}
int vp_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used");
    if (fails_as(0, EINPROGRESS)) return -1;
    if (at_once && vp_flag()) { errno = vp_u8(); return 0; }     // errno means nothing then
    errno = EINPROGRESS;
    return -1;
}
int vp_accept(int fd, struct sockaddr* a, socklen_t* l)
{
    struct sockaddr_in* in = (struct sockaddr_in*) a;
    VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used");
    if (fails()) return -1;
    in->sin_addr.s_addr = htonl(vp_peer_addr);
    in->sin_port = htons(vp_peer_port);
    return vp_fd_new(3);
}
int vp_shutdown(int fd, int how) { VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used"); return fails_as(1, 0) ? -1 : 0; }
int vp_close(int fd)
{
    if (fd == -1) { errno = EBADF; return -1; }
    VP_ASSERT(vp_fd_is_open(fd), "closes only descriptors it has open, once");
    vp_fd_open[fd] = 0;       // as the kernel does even when it reports an error
    vp_fd_count--;
    return fails_as(1, 0) ? -1 : 0;
}
ssize_t vp_recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* a, socklen_t* l)
{
    uint32_t n = vp_in_len;
    VP_ASSERT(vp_fd_is_open(fd), "only open descriptors are used");
    if (vp_in && fails_as(0, EAGAIN)) return -1;
    if (!vp_in) { errno = EAGAIN; return -1; }
    if (n > len) n = len;
    VP_COPY(buf, vp_in, n, VP_DGRAM_LEN);
    if (a) ((struct sockaddr_in*) a)->sin_addr.s_addr = 0;
    vp_in = 0;
    return n;
}

static rmc_pub_context_t* pub;
static rmc_sub_context_t* sub;
static uint8_t active, op;
static uint32_t peers, comes, goes, completes;
static uint16_t port[NS];        // peer of the slot, 0: none
static uint32_t ready[NS];       // subscriber: packets received from the slot's publisher; connected when up
static uint8_t up[NS];
static int sfd[NS];
#define S0 (SIDE ? 0 : VP_SUB)
static uint8_t on_connect(rmc_pub_context_t* c, uint32_t a, uint16_t p) { comes++; return 1; }
static void on_disconnect(rmc_pub_context_t* c, uint32_t a, uint16_t p) { goes++; }
static void on_complete(rmc_sub_context_t* c, uint32_t i, in_port_t p, rmc_node_id_t n) { completes++; }
static uint32_t queued, sent;
#if SIDE
static uint32_t pending(void)
{
    uint32_t q, n = 0, a;
    rmc_pub_context_get_pending(pub, &q, &n, &a);
    return n;
}
#endif
static void consistent(void)
{
    uint32_t i, n = 0, w = 0;
    for (i = 0; i < NS; ++i) {
        n += port[i] != 0;
        VP_ASSERT(vp_poll_on[S0 + i] == (port[i] != 0), "exactly the open connections are watched");
        if (port[i]) VP_ASSERT(vp_poll_fd[S0 + i] == sfd[i] && vp_fd_is_open(sfd[i]), "a connection keeps its descriptor, open");
    }
    VP_ASSERT(vp_poll_on[S0 + VP_SLOT_MCAST] == active, "the multicast socket is watched while active");
    if (SIDE) VP_ASSERT(vp_poll_on[VP_SLOT_LISTEN] == active, "the listen socket is watched while active");
    VP_ASSERT(vp_fd_count == n + active * (SIDE ? 2 : 1), "no other descriptor is open");
    if (SIDE) {
        VP_ASSERT(rmc_pub_get_subscriber_count(pub) == n && rmc_pub_get_socket_count(pub) == n + active * 2, "connections and sockets are counted");
        VP_ASSERT(goes + n == comes, "every loss of a subscriber is told, once");
    } else
        VP_ASSERT(rmc_sub_get_publisher_count(sub) == n && rmc_sub_get_socket_count(sub) == n + active, "connections and sockets are counted");
}
static void opened(void)
{
    uint32_t i;
    for (i = 0; i < NS; ++i)
        if (!port[i] && vp_poll_on[S0 + i]) { port[i] = 1000 + peers; sfd[i] = vp_poll_fd[S0 + i]; up[i] = SIDE; ready[i] = 0; return; }
    VP_ASSERT(0, "success means that the connection is there");
}
static int full(void) { return port[0] && port[1]; }
// Failures other than in cleaning up are reported: the first one's own error number.
static void judge(int res, int ended)
{
    VP_ASSERT(!failed || res == first_errno || (res == 0 && ended), "a failure is reported with its error, or ends the connection");
    VP_ASSERT(failed || res == 0, "success without a failure");
}
static void toggle(void)
{
    int res;
    uint32_t i;
    if (!active) {
        res = SIDE ? rmc_pub_activate_context(pub) : rmc_sub_activate_context(sub);
        judge(res, 0);
        active = !res;
    } else {
        res = SIDE ? rmc_pub_deactivate_context(pub) : rmc_sub_deactivate_context(sub);
        VP_ASSERT(res == 0, "deactivation succeeds");
        active = 0;
        for (i = 0; i < NS; ++i) port[i] = up[i] = 0;
    }
}
static void open_one(void)
{
    int res;
    uint32_t c = comes;
    vp_packet_t k;
    if (!active) return;
    peers++;
    if (SIDE) {
        vp_peer_addr = 7; vp_peer_port = 1000 + peers;
        res = rmc_pub_read(pub, RMC_LISTEN_INDEX, &op);
        if (full()) { VP_ASSERT(res == ENOMEM && !failed && op == RMC_ERROR, "a full table refuses"); return; }
        judge(res, 0);
        VP_ASSERT(comes == c + !res && op == (res ? RMC_ERROR : RMC_READ_ACCEPT), "the application hears of accepted subscribers only");
        if (!res) opened();
    } else {
        vp_packet(&k, 0, 1000 + peers, 7, 1000 + peers, 0);
        res = vp_sub_datagram(sub, &k, sizeof(k.h));
        if (vp_in) { judge(res, 0); VP_ASSERT(failed, "a datagram is read"); vp_in = 0; return; }
        judge(res, 1);
        if (full()) { VP_ASSERT(!failed, "a full table asks nothing of the system"); return; }
        if (!failed) opened();
    }
}
static void send_data(uint32_t s)
{
    int res;
#if SIDE
    uint32_t n = vp_out_n, q;
    if (!active) return;
    VP_ASSERT(vp_pub_queue(pub, queued, 1) == 0, "a packet is queued");
    queued++;
    q = rmc_pub_queue_length(pub);
    res = rmc_pub_write(pub, RMC_MULTICAST_INDEX, &op);
    judge(res, 0);
    VP_ASSERT(rmc_pub_queue_length(pub) + vp_out_n == q + n, "a packet is queued until it is sent");
    if (!res) VP_ASSERT(vp_out_n == queued, "all queued packets are sent");
#else
    vp_packet_t k;
    uint32_t n = rmc_sub_get_dispatch_ready_count(sub);
    if (!active || !up[s]) return;
    k.p[0] = 7;
    vp_packet(&k, ready[s] + 1, port[s], 7, port[s], 1);
    res = vp_sub_datagram(sub, &k, sizeof(k.h) + 1);
    judge(res, 0);
    VP_ASSERT(!vp_in == !failed, "a datagram waits until it is read");
    if (!failed) ready[s]++;
    vp_in = 0;
    VP_ASSERT(rmc_sub_get_dispatch_ready_count(sub) == n + !failed, "a packet is delivered when it is read");
#endif
}
static void write_tcp(uint32_t s)
{
    int res;
    uint32_t have, len;
    if (!up[s]) return;
    len = vp_tx[sfd[s]].len;
#if SIDE
    vp_now += RMC_DEFAULT_PACKET_TIMEOUT + 1;
    VP_ASSERT(rmc_pub_timeout_process(pub) == 0, "timeouts are processed");
    have = pending();
    res = rmc_pub_write(pub, s, &op);
    if (res == ENODATA && !failed) return;
    VP_ASSERT(have - pending() == vp_tx[sfd[s]].len - len, "what is not written is kept");
#else
    vp_now += RMC_DEFAULT_ACK_TIMEOUT + 1;
    VP_ASSERT(rmc_sub_timeout_process(sub) == 0, "timeouts are processed");
    res = rmc_sub_write(sub, s, &op);
    if (res == ENODATA && !failed) return;
    VP_ASSERT(!failed || vp_tx[sfd[s]].len == len, "nothing is written by a write that fails");
    VP_ASSERT(!(vp_poll_act[S0 + s] & RMC_POLLWRITE) == !failed, "writing is asked for again when it failed");
#endif
    judge(res, 0);
    VP_ASSERT(op == (failed ? RMC_ERROR : RMC_WRITE_TCP), "the result tells failure");
}
static void read_tcp(uint32_t s)
{
    int res;
    uint32_t g = goes;
    if (!up[s]) return;
#if SIDE
    struct { uint8_t c; uint64_t a, b; } __attribute__((packed)) m = { RMC_CMD_ACK_INTERVAL, queued, queued };
    vp_stream_put(&vp_rx[sfd[s]], &m, 17);
    res = rmc_pub_read(pub, s, &op);
#else
    struct { uint8_t c; packet_header_t h; uint8_t p; } __attribute__((packed)) m;
    m.c = RMC_CMD_PACKET; m.p = 5;
    m.h.pid = ready[s] + 1; m.h.node_id = port[s]; m.h.payload_len = 1; m.h.listen_ip = 7; m.h.listen_port = port[s];
    vp_stream_put(&vp_rx[sfd[s]], &m, 22);
    res = rmc_sub_read(sub, s, &op);
#endif
    if (failed && (first_errno == EAGAIN || first_errno == EINTR)) {
        uint32_t b = budget;
        VP_ASSERT(res == 0 || res == EAGAIN || res == first_errno, "nothing to read is no loss");
        budget = failed = 0;
        res = SIDE ? rmc_pub_read(pub, s, &op) : rmc_sub_read(sub, s, &op);     // now there is
        budget = b;
    }
    judge(res, 1);
    if (failed) { VP_ASSERT(op == RMC_READ_DISCONNECT, "the result tells the disconnect"); port[s] = up[s] = 0; }
    else { VP_ASSERT(op == RMC_READ_TCP, "the result tells the read"); ready[s]++; }
    if (SIDE) VP_ASSERT(goes == g + (failed != 0), "the application hears of the loss");
}
static void close_one(uint32_t s)
{
    int res;
    if (!port[s]) return;
    res = SIDE ? rmc_pub_close_connection(pub, s) : rmc_sub_close_connection(sub, s);
    VP_ASSERT(res == 0, "closing succeeds");
    port[s] = up[s] = 0;
}
static void complete(uint32_t s)
{
    int res;
    uint32_t c = completes;
    if (SIDE || !port[s] || up[s]) return;
    res = rmc_sub_write(sub, s, &op);
    judge(res, 0);
    VP_ASSERT(op == RMC_COMPLETE_CONNECTION && completes == c + !res, "the application hears of complete subscriptions only");
    if (res) port[s] = 0; else up[s] = 1;
}
static void pub_loopback(void)
{
    static uint8_t x[4];
    int res;
    if (!SIDE || !active) return;
    vp_in = x; vp_in_len = 4;
    res = rmc_pub_read(pub, RMC_MULTICAST_INDEX, &op);
    judge(res, 0);
    vp_in = 0;
}
static void operation(void)
{
    switch (vp_pick(0, OPMAX)) {
    case 0: open_one(); break;
    case 1: send_data(vp_flag()); break;
    case 2: write_tcp(vp_flag()); break;
    case 3: read_tcp(vp_flag()); break;
    case 4: if (SIDE) pub_loopback(); else complete(vp_flag()); break;
    case 5: close_one(vp_flag()); break;
    case 6: toggle(); break;
    }
}
void harness(void)
{
    uint32_t i, b, f = 0;
    failed = 0;
#if SIDE
    pub = vp_pub_new(9, NS);
    pub->control_listen_port = 0;
    rmc_pub_set_subscriber_connect_callback(pub, on_connect);
    rmc_pub_set_subscriber_disconnect_callback(pub, on_disconnect);
#else
    sub = vp_sub_new(9, NS);
    rmc_sub_set_subscription_complete_callback(sub, on_complete);
#endif
#ifdef ACTIVATE     // the operations begin with an activation that may fail, or more of them
    budget = F;
    for (i = 0; i < ACTIVATE; ++i) { failed = 0; if (!active) toggle(); f += failed; consistent(); }
    b = budget; budget = 0; failed = 0;
#else
    b = F;
#endif
    if (!active) toggle();
    for (i = 0; i < CONN; ++i) { open_one(); complete(i); send_data(i); }
    consistent();
    for (i = 0; i < K; ++i) {
        budget = b; failed = 0;
        at_once = 1;
        operation();
        at_once = 0;
        b = budget; f += failed;
        budget = 0; failed = 0;
        consistent();
    }
    // all well from here on
    if (!active) toggle();
    if (!full()) open_one();
    for (i = 0; i < NS; ++i) { complete(i); send_data(i); read_tcp(i); send_data(i); write_tcp(i); }
    consistent();
    for (i = 0; i < NS; ++i)
        if (!SIDE && port[i]) VP_ASSERT(vp_poll_act[S0 + i] == RMC_POLLREAD, "nothing is left to write");
#if SIDE
    for (i = 0; i < VP_NDGRAM; ++i)
        if (i < vp_out_n) VP_ASSERT(vp_out[i].b[0] == i + 1, "every packet is sent once, in order");
    VP_ASSERT(vp_out_n == queued, "every packet is sent");
#endif
    toggle();
    consistent();
#ifndef NODELETE
    VP_ASSERT((SIDE ? rmc_pub_delete_context(pub) : rmc_sub_delete_context(sub)) == 0, "the context is deleted");
#endif
    VP_ASSERT(vp_fd_count == 0, "no descriptor is left open");
    VP_REACH(f >= 1, "failures");
    VP_WITNESS("end");
}
