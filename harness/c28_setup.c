// C28: what the sockets are set up with, for any addresses and ports. SIDE 1: publisher, 0: subscriber.
#define NS 2
#define VP_NPAY 4
#define VP_NDGRAM 6
#define VP_MAXCONN NS
#define VP_MAXFD 16
#define VP_NSTREAM VP_MAXFD
#define VP_OWN_SOCKET
#define VP_OWN_SETSOCKOPT
#define VP_OWN_FCNTL
#define VP_OWN_BIND
#define VP_OWN_LISTEN
#define VP_OWN_GETSOCKNAME
#define VP_OWN_CONNECT
#define VP_OWN_ACCEPT
#define VP_OWN_ACCEPT4
#include <stdint.h>
uint32_t vp_peer_addr; uint16_t vp_peer_port;
#include "vp_world.h"
#include <netinet/tcp.h>
static struct { uint8_t kind, bound, listens, nonblock, share, nodelay, out_if, joined, ttl, connected; uint32_t addr, port, ifaddr, group, jif, hops; } s[VP_MAXFD];
static uint32_t want_ip, want_port, ctl_port, real_port, peer_ip, peer_port;
static int fl;
static int vp_new(int type, int kind)
{
    int fd = vp_fd_new(kind);
    s[fd].kind = kind;
    s[fd].nonblock = (type & SOCK_NONBLOCK) != 0;
    return fd;
}
int vp_socket(int d, int type, int p)
{
    VP_ASSERT(d == AF_INET, "sockets are internet sockets");
    return vp_new(type, (type & 15) == SOCK_DGRAM ? 1 : 2);
}
static uint32_t at(const void* v, int off) { uint32_t a; memcpy(&a, (const uint8_t*) v + off, 4); return ntohl(a); }
int vp_setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
    VP_ASSERT(vp_fd_is_open(fd), "options are set on an open descriptor");
    if (level == SOL_SOCKET && (name == SO_REUSEADDR || name == SO_REUSEPORT)) {
        uint8_t bit = name == SO_REUSEPORT ? 2 : 1;
        s[fd].share = *(const int*) v ? s[fd].share | bit : s[fd].share & ~bit;
    }
    else if (level == IPPROTO_TCP && name == TCP_NODELAY) s[fd].nodelay = *(const int*) v != 0;
    else if (level == IPPROTO_IP && name == IP_MULTICAST_IF) { s[fd].out_if = 1; s[fd].ifaddr = at(v, l < 8 ? 0 : 4); }
    else if (level == IPPROTO_IP && name == IP_ADD_MEMBERSHIP) { s[fd].joined++; s[fd].group = at(v, 0); s[fd].jif = at(v, 4); }
    else if (level == IPPROTO_IP && name == IP_MULTICAST_TTL) { s[fd].ttl = 1; s[fd].hops = l < 4 ? *(const uint8_t*) v : *(const uint32_t*) v; }
    return 0;
}
int vp_fcntl(int fd, int cmd, ...)
{
    VP_ASSERT(vp_fd_is_open(fd), "flags are those of an open descriptor");
    if (cmd == F_SETFL) {
        va_list ap;
        int f;
        va_start(ap, cmd);
        f = va_arg(ap, int);
        va_end(ap);
        s[fd].nonblock = (f & O_NONBLOCK) != 0;
        return 0;
    }
    return cmd == F_GETFL ? fl : 0;
}
int vp_bind(int fd, const struct sockaddr* a, socklen_t l)
{
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    VP_ASSERT(vp_fd_is_open(fd) && l >= sizeof(*in) && in->sin_family == AF_INET, "an open descriptor is bound to an internet address");
    s[fd].bound++; s[fd].addr = ntohl(in->sin_addr.s_addr); s[fd].port = ntohs(in->sin_port);
    VP_ASSERT(s[fd].kind == 2 ? s[fd].share & 2 : s[fd].share, "the port can be shared");
    return 0;
}
int vp_listen(int fd, int n)
{
    VP_ASSERT(vp_fd_is_open(fd) && s[fd].bound && n > 0, "listening needs a bound socket");
    s[fd].listens = 1;
    return 0;
}
int vp_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    VP_ASSERT(vp_fd_is_open(fd) && s[fd].bound, "the name is that of a bound socket");
    ((struct sockaddr_in*) a)->sin_family = AF_INET;
    ((struct sockaddr_in*) a)->sin_addr.s_addr = htonl(s[fd].addr);
    ((struct sockaddr_in*) a)->sin_port = htons(s[fd].port ? s[fd].port : real_port);
    return 0;
}
int vp_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    VP_ASSERT(vp_fd_is_open(fd) && s[fd].kind == 2, "a stream socket is connected");
    VP_ASSERT(s[fd].nonblock, "connecting does not block");
    VP_ASSERT(in->sin_family == AF_INET && ntohl(in->sin_addr.s_addr) == peer_ip && ntohs(in->sin_port) == peer_port, "connects to the announced address");
    s[fd].connected = 1;
    errno = EINPROGRESS;
    return -1;
}
int vp_accept(int fd, struct sockaddr* a, socklen_t* l)
{
    struct sockaddr_in* in = (struct sockaddr_in*) a;
    VP_ASSERT(vp_fd_is_open(fd) && s[fd].listens, "connections are accepted on the listen socket");
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(vp_peer_addr);
    in->sin_port = htons(vp_peer_port);
    return vp_new(0, 3);
}
int vp_accept4(int fd, struct sockaddr* a, socklen_t* l, int flags)
{
    int res = vp_accept(fd, a, l);
    if (res >= 0) s[res].nonblock = (flags & SOCK_NONBLOCK) != 0;
    return res;
}
void harness(void)
{
    uint32_t node = vp_u32(), i, round, mport = vp_range(1, 65535), with_if = vp_flag(), with_ctl = vp_flag(), again = 0;
    int res, fd, lfd, k;
    uint8_t op;
    VP_ASSUME(node);
    for (k = 0; k < 3; ++k) vp_addr[k] = vp_u32();
    peer_ip = vp_u32(); peer_port = vp_u16();
    VP_ASSUME(peer_ip);
    fl = vp_flag() ? O_RDWR : O_RDWR | O_APPEND;
    ctl_port = vp_flag() ? 0 : vp_range(1, 65535);
    real_port = vp_range(1, 65535);
#if SIDE
    rmc_pub_context_t* ctx = 0;
    res = rmc_pub_init_context(&ctx, node, "A", mport, with_if ? "C" : 0, with_ctl ? "B" : 0, ctl_port, user_data_u32(VP_USER_PUB),
                               vp_poll_add, vp_poll_modify, vp_poll_remove, NS, vp_payload_free);
    VP_ASSERT(!res && ctx && !vp_fd_count, "a context is set up without opening anything");
    VP_ASSERT(rmc_pub_get_socket_count(ctx) == 0 && rmc_pub_get_max_subscriber_count(ctx) == NS && rmc_pub_get_subscriber_count(ctx) == 0, "sockets and slots are counted");
    for (round = 0; round < ROUNDS; ++round) {
        VP_ASSERT(rmc_pub_set_multicast_ttl(ctx, 3) == ENOTCONN, "the hop limit needs an active context");
        VP_ASSERT(rmc_pub_activate_context(ctx) == 0, "activation succeeds");
        VP_ASSERT(vp_poll_on[VP_SLOT_MCAST] && vp_poll_on[VP_SLOT_LISTEN] && vp_fd_count == 2 && rmc_pub_get_socket_count(ctx) == 2, "a multicast and a listen socket are open and watched");
        fd = vp_poll_fd[VP_SLOT_MCAST]; lfd = vp_poll_fd[VP_SLOT_LISTEN];
        VP_ASSERT(s[fd].kind == 1 && s[fd].out_if && s[fd].ifaddr == (with_if ? vp_addr[2] : 0), "multicast leaves by the interface asked for");
        VP_ASSERT(s[lfd].kind == 2 && s[lfd].listens && s[lfd].bound == 1 && s[lfd].addr == (with_ctl ? vp_addr[1] : 0), "the publisher listens on its control address");
        VP_ASSERT(s[lfd].port == ctl_port || (again && s[lfd].port == real_port), "the publisher listens on its control port");
        if (vp_flag()) {
            uint32_t hops = vp_range(0, 255);
            VP_ASSERT(rmc_pub_set_multicast_ttl(ctx, hops) == 0, "the hop limit is set");
            VP_ASSERT(s[fd].ttl && s[fd].hops == hops, "multicast travels as far as asked for");
        }
        VP_ASSERT(vp_pub_queue(ctx, round, 2) == 0 && rmc_pub_write(ctx, RMC_MULTICAST_INDEX, &op) == 0 && vp_out_n == round + 1, "packets are sent");
        VP_ASSERT(vp_out[round].addr == vp_addr[0] && vp_out[round].port == mport, "multicast goes to group and port");
        VP_ASSERT(((packet_header_t*) vp_out[round].b)->listen_port == (s[lfd].port ? s[lfd].port : real_port) &&
                  ((packet_header_t*) vp_out[round].b)->listen_ip == s[lfd].addr, "packets name the address and port listened on");
        for (i = 0; i < NS; ++i) {
            vp_pub_accept(ctx, vp_u32(), vp_u16());
            VP_ASSERT(vp_poll_on[i] && s[vp_poll_fd[i]].kind == 3, "an accepted connection is watched");
            VP_ASSERT(s[vp_poll_fd[i]].nonblock && s[vp_poll_fd[i]].nodelay, "an accepted connection neither blocks nor delays");
        }
        VP_ASSERT(rmc_pub_get_socket_count(ctx) == 2 + NS, "sockets are counted");
        VP_ASSERT(rmc_pub_deactivate_context(ctx) == 0 && !vp_fd_count && rmc_pub_get_socket_count(ctx) == 0, "deactivation closes everything");
        again = 1;
    }
#else
    rmc_sub_context_t* ctx = 0;
    vp_packet_t p;
    res = rmc_sub_init_context(&ctx, node, "A", mport, with_if ? "C" : 0, user_data_u32(VP_USER_SUB),
                               vp_poll_add, vp_poll_modify, vp_poll_remove, NS, vp_payload_alloc, vp_payload_free);
    VP_ASSERT(!res && ctx && !vp_fd_count, "a context is set up without opening anything");
    VP_ASSERT(rmc_sub_node_id(ctx) == node && rmc_sub_get_socket_count(ctx) == 0 && rmc_sub_get_max_publisher_count(ctx) == NS && rmc_sub_get_publisher_count(ctx) == 0, "node, sockets and slots are those configured");
    for (round = 0; round < ROUNDS; ++round) {
        VP_ASSERT(rmc_sub_activate_context(ctx) == 0, "activation succeeds");
        VP_ASSERT(vp_poll_on[VP_SUB + VP_SLOT_MCAST] && vp_fd_count == 1 && rmc_sub_get_socket_count(ctx) == 1, "a multicast socket is open and watched");
        fd = vp_poll_fd[VP_SUB + VP_SLOT_MCAST];
        VP_ASSERT(s[fd].kind == 1 && s[fd].bound == 1 && s[fd].port == mport && (s[fd].addr == 0 || s[fd].addr == vp_addr[0]), "the subscriber receives on the multicast port");
        VP_ASSERT(s[fd].joined == 1 && s[fd].group == vp_addr[0] && s[fd].jif == (with_if ? vp_addr[2] : 0), "the subscriber has joined the group on the interface asked for");
        for (i = 0; i < NS; ++i) {
            int n = 0;
            peer_ip += i; VP_ASSUME(peer_ip);
            vp_packet(&p, 0, 7 + i, peer_ip, peer_port, 0);
            vp_sub_datagram(ctx, &p, sizeof(p.h));
            VP_ASSERT(vp_poll_on[VP_SUB + i] && s[vp_poll_fd[VP_SUB + i]].connected, "an announced publisher is connected to");
            VP_ASSERT(rmc_sub_write(ctx, i, &op) == 0, "the connection is completed");
            VP_ASSERT(s[vp_poll_fd[VP_SUB + i]].nodelay, "acknowledgements are sent without delay");
        }
        VP_ASSERT(rmc_sub_get_socket_count(ctx) == 1 + NS, "sockets are counted");
        VP_ASSERT(rmc_sub_deactivate_context(ctx) == 0 && !vp_fd_count && rmc_sub_get_socket_count(ctx) == 0, "deactivation closes everything");
        again = 1;
    }
#endif
    VP_REACH(!with_if && !with_ctl, "all interfaces");
    VP_REACH(SIDE ? !ctl_port : 1, "any control port");
    VP_WITNESS("end");
}
