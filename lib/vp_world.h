// Network around the library: datagrams out and in, TCP byte streams out and in. Included instead of vp_env.h.
#ifndef VP_WORLD_H
#define VP_WORLD_H
#define VP_OWN_READV
#define VP_OWN_WRITEV
#define VP_OWN_RECVFROM
#define VP_OWN_SENDMSG
#include "vp_env.h"
rmc_index_t rmc_sub_packet_index(sub_packet_t* pack);   // public, but in no header
#ifdef VP_SOLVER
#define VP_COPY(d, s, n, cap) do { uint32_t q_; for (q_ = 0; q_ < (cap); ++q_) if (q_ < (n)) ((uint8_t*) (d))[q_] = ((const uint8_t*) (s))[q_]; } while(0)
#else
#define VP_COPY(d, s, n, cap) do { if (n) memcpy((d), (s), (n)); } while(0)
#endif

#ifndef VP_DGRAM_LEN
#define VP_DGRAM_LEN (sizeof(packet_header_t) + 4)
#endif
#ifndef VP_NDGRAM
#define VP_NDGRAM 4
#endif
#ifndef VP_STREAM
#define VP_STREAM 64
#endif
#ifndef VP_NSTREAM
#define VP_NSTREAM 8  // descriptors below this may carry a stream
#endif

// ---- multicast out ----
typedef struct { uint8_t b[VP_DGRAM_LEN]; uint32_t len; uint32_t addr; uint16_t port; } vp_dgram_t;
vp_dgram_t vp_out[VP_NDGRAM];
uint32_t vp_out_n;
#ifndef VP_SEND_ERRNO
#define VP_SEND_ERRNO() 0     // a harness may have the socket refuse: error number, 0 to accept
#endif
#ifndef VP_OWN_SENDMSG2
ssize_t vp_sendmsg(int fd, const struct msghdr* m, int flags)
{
    int e = VP_SEND_ERRNO();
    uint32_t i, j, n = 0;
    VP_ASSERT(vp_fd_is_open(fd) && vp_fd_open[fd] == 1, "datagrams are sent on an open datagram socket");
    if (e) { errno = e; return -1; }
    if (vp_out_n >= VP_NDGRAM) {
        VP_ASSERT(0, "no more datagrams are sent than packets were queued");
        VP_ASSUME(0);
    }
    vp_out[vp_out_n].addr = ntohl(((struct sockaddr_in*) m->msg_name)->sin_addr.s_addr);
    vp_out[vp_out_n].port = ntohs(((struct sockaddr_in*) m->msg_name)->sin_port);
    for (i = 0; i < 2; ++i)
        if (i < m->msg_iovlen) {
            j = m->msg_iov[i].iov_len;
            if (n + j > VP_DGRAM_LEN) {
                VP_ASSERT(0, "datagram no longer than header and payload");
                VP_ASSUME(0);
            }
            VP_COPY(vp_out[vp_out_n].b + n, m->msg_iov[i].iov_base, j, VP_DGRAM_LEN);
            n += j;
        }
    VP_ASSERT(n <= VP_DGRAM_LEN && m->msg_iovlen <= 2, "datagram no longer than header and payload");
    vp_out[vp_out_n].len = n;
    vp_out_n++;
    return n;
}
#endif

// ---- multicast in: at most one datagram waiting ----
const uint8_t* vp_in;
uint32_t vp_in_len;
uint32_t vp_src_addr;
#ifndef VP_OWN_RECVFROM2
ssize_t vp_recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* a, socklen_t* l)
{
    uint32_t n = vp_in_len;
    if (!vp_in) { errno = EAGAIN; return -1; }
    if (n > len) n = len;
    VP_COPY(buf, vp_in, n, VP_DGRAM_LEN);
    if (a) {
        ((struct sockaddr_in*) a)->sin_family = AF_INET;
        ((struct sockaddr_in*) a)->sin_addr.s_addr = htonl(vp_src_addr);
    }
    vp_in = 0;
    return n;
}
#endif

// ---- TCP: a byte stream in each direction per descriptor ----
typedef struct { uint8_t b[VP_STREAM]; uint32_t len, pos; } vp_stream_t;
vp_stream_t vp_rx[VP_NSTREAM], vp_tx[VP_NSTREAM];
#ifndef VP_READ_CHUNK
#define VP_READ_CHUNK(n) (n)     // how many of n bytes a read returns
#endif
#ifndef VP_WRITE_CHUNK
#define VP_WRITE_CHUNK(n) (n)
#endif
ssize_t vp_readv(int fd, const struct iovec* iov, int cnt)
{
    vp_stream_t* s;
    uint32_t i, n, room = 0;
    VP_ASSERT(vp_fd_is_open(fd) && fd < VP_NSTREAM, "reads only from an open descriptor");
    s = &vp_rx[fd];
    for (i = 0; i < 2; ++i)
        if ((int) i < cnt) room += iov[i].iov_len;
    n = s->len - s->pos;
    if (n == 0) return 0;  // end of stream
    if (n > room) n = room;
    n = VP_READ_CHUNK(n);
    i = n < iov[0].iov_len ? n : iov[0].iov_len;
    VP_COPY(iov[0].iov_base, s->b + s->pos, i, VP_STREAM);
    VP_COPY(iov[1].iov_base, s->b + s->pos + i, n - i, VP_STREAM);
    s->pos += n;
    return n;
}
ssize_t vp_writev(int fd, const struct iovec* iov, int cnt)
{
    vp_stream_t* s;
    uint32_t i, n, have = 0;
    VP_ASSERT(vp_fd_is_open(fd) && fd < VP_NSTREAM, "writes only to an open descriptor");
    s = &vp_tx[fd];
    for (i = 0; i < 2; ++i)
        if ((int) i < cnt) have += iov[i].iov_len;
    n = VP_WRITE_CHUNK(have);
    if (!n) { errno = EAGAIN; return -1; }
    if (n > VP_STREAM - s->len) {
        VP_ASSERT(0, "no more bytes are written than were queued");
        VP_ASSUME(0);
    }
    i = n < iov[0].iov_len ? n : iov[0].iov_len;
    VP_COPY(s->b + s->len, iov[0].iov_base, i, VP_STREAM);
    VP_COPY(s->b + s->len + i, iov[1].iov_base, n - i, VP_STREAM);
    s->len += n;
    return n;
}
static void vp_stream_put(vp_stream_t* s, const void* p, uint32_t n)
{
    VP_LIMIT(s->len + n <= VP_STREAM);
    VP_COPY(s->b + s->len, p, n, VP_STREAM);
    s->len += n;
}

// ---- standard set-ups ----
#define VP_GROUP_PORT 4723
#define VP_CTRL_PORT 3000
#ifndef VP_PUB_FREE
#define VP_PUB_FREE vp_payload_free
#endif
#ifdef VP_LOG     // everything is logged, and printing leaves any error number behind
#include "rmc_log.h"
void rmc_log_set_file(FILE* file);
static void vp_log_on(void)
{
    static int file;
    vp_log_errno = vp_u8();
    VP_ASSUME(vp_log_errno > 0 && vp_log_errno < 134);
    rmc_log_set_file((FILE*) &file);
    rmc_set_log_level(RMC_LOG_LEVEL_DEBUG);
}
#else
#define vp_log_on()
#endif
static rmc_pub_context_t* vp_pub_new(rmc_node_id_t node, uint32_t max_subs)
{
    rmc_pub_context_t* ctx = 0;
    vp_log_on();
    int res = rmc_pub_init_context(&ctx, node, "A", VP_GROUP_PORT, "0", "B", VP_CTRL_PORT, user_data_u32(VP_USER_PUB),
                                   vp_poll_add, vp_poll_modify, vp_poll_remove, max_subs, VP_PUB_FREE);
    VP_ASSERT(res == 0 && ctx, "publisher context is set up");
    return ctx;
}
static rmc_index_t vp_pub_accept(rmc_pub_context_t* ctx, uint32_t addr, uint16_t port)
{
    uint8_t op = 0xff;
    int res;
    vp_peer_addr = addr; vp_peer_port = port;
    res = rmc_pub_read(ctx, RMC_LISTEN_INDEX, &op);
    VP_ASSERT(res == 0 && op == RMC_READ_ACCEPT, "subscriber connection is accepted");
    return 0;
}
// Queues a payload slot of the given length.
static int vp_pub_queue(rmc_pub_context_t* ctx, uint32_t slot, payload_len_t len)
{
    int res;
    vp_pay_out[slot] = 1; vp_pay_len[slot] = len;
    res = rmc_pub_queue_packet(ctx, vp_pay[slot], len, 0);
    if (res) vp_pay_out[slot] = 0;
    return res;
}
#ifndef VP_SUB_ALLOC
#define VP_SUB_ALLOC vp_payload_alloc
#define VP_SUB_FREE vp_payload_free
#endif
static rmc_sub_context_t* vp_sub_new(rmc_node_id_t node, uint32_t max_pubs)
{
    rmc_sub_context_t* ctx = 0;
    vp_log_on();
    int res = rmc_sub_init_context(&ctx, node, "A", VP_GROUP_PORT, "0", user_data_u32(VP_USER_SUB),
                                   vp_poll_add, vp_poll_modify, vp_poll_remove, max_pubs, VP_SUB_ALLOC, VP_SUB_FREE);
    VP_ASSERT(res == 0 && ctx, "subscriber context is set up");
    return ctx;
}
typedef struct { packet_header_t h; uint8_t p[VP_DGRAM_LEN - sizeof(packet_header_t)]; } __attribute__((packed)) vp_packet_t;
static void vp_packet(vp_packet_t* k, packet_id_t pid, rmc_node_id_t node, uint32_t ip, uint16_t port, payload_len_t len)
{
    k->h.pid = pid; k->h.node_id = node; k->h.listen_ip = ip; k->h.listen_port = port; k->h.payload_len = len;
}
static int vp_sub_datagram(rmc_sub_context_t* ctx, const void* p, uint32_t len)
{
    uint8_t op = 0;
    vp_in = p; vp_in_len = len;
    return rmc_sub_read(ctx, RMC_MULTICAST_INDEX, &op);
}
// Announce, connect, complete.
static void vp_sub_connect(rmc_sub_context_t* ctx, rmc_index_t index, rmc_node_id_t node, uint32_t ip, uint16_t port)
{
    vp_packet_t k;
    uint8_t op = 0;
    int res;
    vp_packet(&k, 0, node, ip, port, 0);
    vp_sub_datagram(ctx, &k, sizeof(k.h));
    res = rmc_sub_write(ctx, index, &op);
    VP_ASSERT(res == 0 && op == RMC_COMPLETE_CONNECTION, "subscriber connects to an announced publisher");
}
#endif
